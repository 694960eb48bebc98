package core

import (
	"fmt"
	"os"
	"strings"
)

var raceOffset int64

func raceLogPath() string {
	p := os.Getenv("VERIF_RACE_LOG")
	if p == "" {
		return ""
	}
	return fmt.Sprintf("%s.%d", p, os.Getpid())
}

func raceMark() {
	p := raceLogPath()
	if p == "" {
		return
	}
	if fi, err := os.Stat(p); err == nil {
		raceOffset = fi.Size()
	}
}

// raceViolation turns the race reports written since raceMark into a violation.
func raceViolation() *Violation {
	p := raceLogPath()
	if p == "" {
		Fatal("race build without VERIF_RACE_LOG")
	}
	b, err := os.ReadFile(p)
	if err != nil {
		Fatal("race reported but no log: %v", err)
	}
	if raceOffset < int64(len(b)) {
		b = b[raceOffset:]
	}
	reports := strings.Split(string(b), "WARNING: DATA RACE")
	harness := ""
	for _, r := range reports[1:] {
		if i := strings.Index(r, "\n=================="); i >= 0 {
			r = r[:i]
		}
		// The two accesses come first, then where their goroutines were made.
		acc := r
		if i := strings.Index(acc, "Goroutine "); i >= 0 {
			acc = acc[:i]
		}
		if !strings.Contains(acc, "go-ini/ini.") {
			harness = r
			continue
		}
		v := &Violation{Class: "race"}
		var tops []string
		lines := strings.Split(acc, "\n")
		for i, l := range lines {
			if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine") {
				what := strings.TrimSpace(l)
				if j := strings.Index(what, " at 0x"); j >= 0 {
					what = what[:j]
				}
				n := 0
				for _, f := range lines[i+1:] {
					f = strings.TrimSpace(f)
					if f == "" {
						break
					}
					if strings.HasPrefix(f, "/") {
						continue
					}
					v.Trace = append(v.Trace, "  "+what+": "+f)
					what = "    from"
					if n++; n >= 6 {
						break
					}
				}
				if i+1 < len(lines) {
					top := ""
					for _, f := range lines[i+1:] {
						f = strings.TrimSpace(f)
						if f == "" {
							break
						}
						if strings.Contains(f, "go-ini/ini.") {
							top = strings.TrimSuffix(f, "()")
							break
						}
					}
					if top == "" {
						top = "the caller"
					}
					tops = append(tops, top)
				}
			}
		}
		v.Msg = "data race between " + strings.Join(tops, " and ")
		return v
	}
	if harness != "" {
		Fatal("data race within the harness:\n%s", harness)
	}
	return nil
}
