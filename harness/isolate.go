package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// runIsolated replays a plan in a process of its own, so that a crash of the
// whole process (a panic on one of the daemon's own goroutines) is an outcome
// like any other and can be shrunk.
func runIsolated(s *Sub, plan json.RawMessage) string {
	f := filepath.Join(*fOut, fmt.Sprintf("isolate-%d.json", *fShard))
	_ = os.WriteFile(f, mustJSON(&Replay{
		Property: s.Prop, Sub: s.Name, Plan: plan,
	}), 0644)
	cmd := exec.Command(os.Args[0], "-replay", f)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err == nil {
		return ""
	}
	if strings.HasPrefix(out.String(), "FAIL") {
		return strings.TrimSpace(out.String())
	}
	if msg := crashMessage(errb.String()); msg != "" {
		return msg
	}
	return ""
}

// crashMessage summarises the crash of a process if it is the code under test
// that crashed.
func crashMessage(stderr string) string {
	i := strings.Index(stderr, "panic: ")
	if i < 0 {
		i = strings.Index(stderr, "fatal error: ")
	}
	if i < 0 || strings.Contains(stderr[i:], "out of memory") {
		return ""
	}
	rest := stderr[i:]
	// Only the stack of the goroutine that crashed counts.
	stack := rest
	if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
		if k := strings.Index(rest[j+2:], "\n\ngoroutine "); k >= 0 {
			stack = rest[:j+2+k]
		}
	}
	if !strings.Contains(stack, "github.com/carlakc/boltnd") {
		return ""
	}
	first := strings.SplitN(rest, "\n", 2)[0]
	return "process crashed: " + first + "\n" + boltndFrames(stack)
}
