// Command inisim runs the checks of go-ini/ini in a deterministic simulation.
package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"inisim/core"
	"inisim/props"
)

func main() {
	if len(os.Args) < 2 {
		core.Fatal("usage: inisim check|worker|replay|list ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	id := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "VERIF_SEED")
	tier := fs.String("tier", "quick", "quick or thorough")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "end of runs")
	stride := fs.Int("stride", 1, "distance of runs")
	status := fs.String("status", "", "status file")
	hashes := fs.String("hashes", "", "file for case hashes")
	deadline := fs.Int64("deadline", 0, "clock limit")
	file := fs.String("file", "", "replay file")
	verbose := fs.Bool("v", false, "print events")
	perRun := fs.Bool("per-run", false, "print a hash per run")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "")
	workers := fs.Int("workers", 0, "")
	runs := fs.Int("runs", 0, "number of runs")
	maxTime := fs.Duration("max-time", 0, "")
	buildMS := fs.Int64("build-ms", 0, "")
	fs.Parse(os.Args[2:])

	if cmd == "list" {
		for _, p := range props.All() {
			race := ""
			if p.Race {
				race = " race"
			}
			fmt.Println(p.ID + race)
		}
		return
	}
	var prop *core.Property
	for _, p := range props.All() {
		if p.ID == *id {
			prop = p
		}
	}
	if prop == nil {
		core.Fatal("unknown property %q", *id)
	}
	switch cmd {
	case "worker":
		a := core.WorkerArgs{Prop: prop, Seed: *seed, From: *from, To: *to, Stride: *stride, Tier: *tier, Status: *status, HashFile: *hashes, Hashes: *perRun}
		if *deadline != 0 {
			a.Deadline = time.Unix(0, *deadline)
		}
		core.Worker(a)
	case "cold":
		core.ColdRun(prop)
	case "replay":
		core.ReplayRun(prop, *file, *verbose)
	case "check":
		self, err := os.Executable()
		if err != nil {
			core.Fatal("%v", err)
		}
		o := core.Options{Self: self, Verif: *verif, Work: *work, Seed: *seed, Tier: *tier, Workers: *workers, Runs: *runs, MaxTime: *maxTime,
			Started: time.Now(), BuildS: float64(*buildMS) / 1000, KnownIDs: knownIDs(filepath.Join(*verif, "known-findings.txt"), prop.ID)}
		if o.MaxTime == 0 {
			o.MaxTime = 60 * time.Second
			if *tier == "thorough" {
				o.MaxTime = 10 * time.Minute
			}
		}
		core.Check(prop, o)
	default:
		core.Fatal("unknown command %q", cmd)
	}
}

// knownIDs reads lines of the form "known: property=C05 id=<id> <what fails>".
func knownIDs(path, prop string) map[string]bool {
	m := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return m
		}
		core.Fatal("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) >= 3 && w[0] == "known:" && w[1] == "property="+prop && strings.HasPrefix(w[2], "id=") {
			m[strings.TrimPrefix(w[2], "id=")] = true
		}
	}
	return m
}
