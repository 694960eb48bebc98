package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"time"
)

// Coldable is implemented by plans that may ask for a process of their own, so that
// nothing package-level was touched by earlier runs.
type Coldable interface {
	IsCold() bool
}

var inCold bool

type coldIn struct {
	Plan json.RawMessage `json:"plan"`
	Arg  string          `json:"arg"`
}

type coldOut struct {
	Violation *Violation `json:"violation"`
	T         *T         `json:"t"`
}

// Cold executes a plan in a fresh process. arg says which part of it; the property sees
// it as T.Arg and leaves what it found in T.Out.
func Cold(prop string, p Plan, arg string) (*Violation, *T) {
	self, err := os.Executable()
	if err != nil {
		Fatal("%v", err)
	}
	in, err := json.Marshal(coldIn{Plan: encode(p), Arg: arg})
	if err != nil {
		Fatal("%v", err)
	}
	cmd := exec.Command(self, "cold", "-prop", prop)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		Fatal("cold run: %v", err)
	}
	late := false
	timer := time.AfterFunc(200*time.Second, func() { late = true; cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	if late {
		return V("hang", "no end after 200 s"), NewT()
	}
	var o coldOut
	i := bytes.LastIndex(out.Bytes(), []byte("\nCOLD "))
	if i >= 0 {
		if e := json.Unmarshal(out.Bytes()[i+6:], &o); e != nil {
			Fatal("cold run: %v", e)
		}
		return o.Violation, o.T
	}
	if class, msg := fatalClass(errb.String()); class != "" {
		return &Violation{Class: class, Msg: msg, Trace: Frames(errb.String())}, NewT()
	}
	Fatal("cold run: %v: %s", err, clip(errb.String(), 2000))
	return nil, nil
}

// ColdRun is the other end of Cold.
func ColdRun(prop *Property) {
	memory()
	inCold = true
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		Fatal("%v", err)
	}
	var in coldIn
	if err := json.Unmarshal(b, &in); err != nil {
		Fatal("%v", err)
	}
	p, err := decode(prop, in.Plan)
	if err != nil {
		Fatal("%v", err)
	}
	coldArg = in.Arg
	v, t := execute(prop, p)
	b, err = json.Marshal(coldOut{v, t})
	if err != nil {
		Fatal("%v", err)
	}
	fmt.Printf("\nCOLD %s\n", b)
	if p := raceLogPath(); p != "" {
		os.Remove(p)
	}
}

var coldArg string
