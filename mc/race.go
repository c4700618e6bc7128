package main

// A happens-before monitor: the race detector build of this program runs every pair of operations
// concurrently (each on its own decoded file, and the read-only ones on one decoded file). Every pair is also run
// as the first thing a process does, with several goroutines each: state that is set up at first use is not there yet.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/transcriptaze/midiasm/midi"
)

type raceOp struct {
	Name     string
	ReadOnly bool
	Run      func(smf *midi.SMF) ([]byte, error)
}

func raceOps() []raceOp {
	return []raceOp{
		{"validate", true, func(smf *midi.SMF) ([]byte, error) {
			s := []string{}
			for _, e := range smf.Validate() {
				s = append(s, e.Error())
			}
			return []byte(strings.Join(s, "\n")), nil
		}},
		{"list", true, func(smf *midi.SMF) ([]byte, error) { s, err := listFresh(smf, "document"); return []byte(s), err }},
		{"split", true, func(smf *midi.SMF) ([]byte, error) {
			s, err := listFresh(smf.MThd, "MThd")
			for _, t := range smf.Tracks {
				x, e := listFresh(t, "MTrk")
				if e != nil {
					return nil, e
				}
				s += x
			}
			return []byte(s), err
		}},
		{"export", true, exportJSON},
		{"notes", true, func(smf *midi.SMF) ([]byte, error) { return noteList(smf, 0, false) }},
		{"notes+5", true, func(smf *midi.SMF) ([]byte, error) { return noteList(smf, 5, true) }},
		{"click", true, clicks},
		{"encode", true, encode},
		{"transpose", false, func(smf *midi.SMF) ([]byte, error) { return transposed(smf, 3) }},
	}
}

func raceDocs() []Named {
	return []Named{
		{"everything", fileN(0, 480, everything())},
		{"format1", fileN(1, 480, tempoTrack(), melody(3), melody(4))},
		{"flats", fileN(1, 96, tempoTrack(), cat(meta(0, 0x59, []byte{0xfa, 1}), melody(3)))},
	}
}

// Runs f and g concurrently, n times.
func both(n int, f, g func()) {
	for i := 0; i < n; i++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, h := range []func(){f, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				h()
			}()
		}
		close(start)
		wg.Wait()
	}
}

// Runs f(0) to f(n-1) concurrently.
func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
}

// The body of the monitored process.
func raceMain(name string) int {
	n := 0
	progress := func(s string) { n++; fmt.Fprintf(real.out, "pair %d %s\n", n, s) }
	docs := raceDocs()
	must := func(b []byte) *midi.SMF {
		smf, err := decode(b)
		if err != nil {
			panic(err)
		}
		return smf
	}
	name, arg, _ := strings.Cut(name, " ")
	k, _ := strconv.Atoi(arg)
	ps := raceProcs(docs)
	switch name {
	case "race-text":
		ss := sources()
		for b := range ss {
			progress(fmt.Sprintf("assemble %d || assemble %d", k, b))
			both(3, func() { assembleText(ss[k]) }, func() { assembleText(ss[b]) })
		}
	case "race-first-text":
		ss := sources()
		progress(fmt.Sprintf("16 x assemble %d in a new process", k))
		together(16, func(int) { assembleText(ss[k]) })
	case "race-first":
		p, q := ps[racePairs(len(ps))[k][0]], ps[racePairs(len(ps))[k][1]]
		p.prepare()
		q.prepare()
		progress("8 x " + p.name + " || 8 x " + q.name + " in a new process")
		together(16, func(i int) {
			if i%2 == 0 {
				p.f(i / 2 % len(docs))
			} else {
				q.f((i/2 + 1) % len(docs))
			}
		})
	case "race-ops":
		for _, p := range ps {
			p.prepare()
		}
		for _, q := range ps[k:] {
			for x := range docs {
				y := (x + 1) % len(docs)
				progress(ps[k].name + " || " + q.name)
				both(1, func() { ps[k].f(x) }, func() { q.f(y) })
			}
		}
	case "race-shared":
		// read-only operations on the same decoded file
		ops := raceOps()
		smf := must(docs[k].B)
		for i, p := range ops {
			for _, q := range ops[i:] {
				if p.ReadOnly && q.ReadOnly {
					progress(p.Name + " || " + q.Name + ", same file")
					both(2, func() { p.Run(smf) }, func() { q.Run(smf) })
				}
			}
		}
	}
	fmt.Fprintf(real.out, "done %d\n", n)
	return 0
}

// files that cannot be decoded: several invalid tracks, several invalid events, not enough tracks
func badTracks() [][]byte {
	bad := []byte{0x00, 0x90, 0x3c, 0xff}
	return [][]byte{
		fileN(1, 480, tempoTrack(), bad, bad, bad, bad, melody(1)),
		fileN(1, 480, tempoTrack(), cat(melody(2)[:8], bad), melody(3), bad),
		fileN(1, 480, tempoTrack(), bad, melody(3))[:60],
	}
}

// operations that start from bytes
type raceProc struct {
	name    string
	prepare func()
	f       func(d int)
}

func raceProcs(docs []Named) []raceProc {
	texts, jsons := make([]string, len(docs)), make([][]byte, len(docs))
	nothing := func() {}
	needText := func() {
		for i, d := range docs {
			texts[i] = textOf(d.B)
		}
	}
	needJSON := func() {
		for i, d := range docs {
			jsons[i] = jsonOf(d.B)
		}
	}
	ps := []raceProc{
		{"decode", nothing, func(d int) { decode(docs[d].B) }},
		{"decode bad", nothing, func(d int) { decode(badTracks()[d%len(badTracks())]) }},
		{"assemble text", needText, func(d int) { assembleText(texts[d]) }},
		{"assemble JSON", needJSON, func(d int) { assembleJSON(jsons[d]) }},
		{"bad text", needText, func(d int) { assembleText(texts[d][:len(texts[d])-5] + "zzz") }},
	}
	for _, o := range raceOps() {
		ps = append(ps, raceProc{"decode, " + o.Name, nothing, func(d int) {
			if smf, err := decode(docs[d].B); err == nil {
				o.Run(smf)
			}
		}})
	}
	return ps
}

func raceOracle(in []byte, arg string) (string, error) {
	bin := filepath.Join(os.Getenv("MC_BUILD"), "mc-race")
	if _, err := os.Stat(bin); err != nil {
		return "no race detector build", nil
	}
	cmd := exec.Command(bin, "race", arg)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		return "no race detector build", nil
	}
	t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !t.Stop() {
		return "timeout", nil
	}
	if cmd.ProcessState.ExitCode() == 66 && strings.Contains(errs.String(), "DATA RACE") {
		ls := strings.Split(strings.TrimSpace(out.String()), "\n")
		return "", fmt.Errorf("data race in %s\n%s", ls[len(ls)-1], trim(errs.String(), 3000))
	}
	if strings.Contains(errs.String(), "fatal error: concurrent map") {
		ls := strings.Split(strings.TrimSpace(out.String()), "\n")
		return "", fmt.Errorf("unsynchronised access to a map in %s\n%s", ls[len(ls)-1], trim(errs.String(), 3000))
	}
	if cmd.ProcessState.ExitCode() != 0 {
		return fmt.Sprintf("monitor ended with %d", cmd.ProcessState.ExitCode()), nil
	}
	return strings.TrimSpace(out.String()[strings.LastIndex(out.String(), "done"):]) + " pairs of concurrent operations without a data race", nil
}

func init() { oracle("race", raceOracle) }

func raceRun(r *R, name string, n int) {
	r.Par("happens-before monitor: "+name, n, func(w *W, i int) bool { return w.Case("race", nil, fmt.Sprint(name, " ", i)) })
}

func racePairs(n int) (out [][2]int) {
	for i := range n {
		for j := i; j < n; j++ {
			out = append(out, [2]int{i, j})
		}
	}
	return
}
