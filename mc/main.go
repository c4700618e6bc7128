package main

import (
	"fmt"
	"os"
	"sort"

	mlog "github.com/transcriptaze/midiasm/log"
)

// The real stdout: the code under test prints to os.Stdout/os.Stderr, which are pointed at /dev/null.
var real = struct{ out, err *os.File }{os.Stdout, os.Stderr}

func silence() {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		os.Stderr = null
	}
	mlog.SetLogLevel(mlog.None)
}

func main() {
	if len(os.Args) < 3 {
		ids := []string{}
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("usage: mc check|worker ID quick|thorough; mc replay FILE;", ids)
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2], tier))
	case "worker":
		silence()
		os.Exit(worker(os.Args[2], tier))
	case "step":
		silence()
		os.Exit(stepMain(os.Args[2]))
	case "race":
		silence()
		os.Exit(raceMain(os.Args[2]))
	case "replay":
		silence()
		os.Exit(replay(os.Args[2]))
	}
	os.Exit(2)
}
