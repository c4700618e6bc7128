package main

// Write faults (P21): a failure at every byte offset of every output.

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/transcriptaze/midiasm/commands"
	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"
)

var errWrite = errors.New("injected write error")

// Accepts limit bytes. Then the write that passes the limit fails, in one of the ways of io.Writer:
// "part": the bytes up to the limit and an error; "none": no byte of that write and an error;
// "short": the bytes up to the limit and io.ErrShortWrite; "once": as part, but later writes succeed;
// or a name of ioErrors: as part, with that error.
type faultyWriter struct {
	limit  int
	mode   string
	b      bytes.Buffer
	failed bool
	after  int // writes after the failure
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		if f.mode == "once" {
			return f.b.Write(p)
		}
		return 0, errWrite
	}
	if f.b.Len()+len(p) <= f.limit {
		return f.b.Write(p)
	}
	f.failed = true
	n := f.limit - f.b.Len()
	if f.mode == "none" {
		n = 0
	}
	f.b.Write(p[:n])
	if f.mode == "short" {
		return n, io.ErrShortWrite
	}
	if err, ok := ioErrors[f.mode]; ok {
		return n, err
	}
	return n, errWrite
}

type writeOp struct {
	Name string
	Run  func(smf *midi.SMF, w io.Writer) error
}

func writeOps() []writeOp {
	printed := func(v func(smf *midi.SMF) any, t string) func(smf *midi.SMF, w io.Writer) error {
		return func(smf *midi.SMF, w io.Writer) error {
			x := v(smf)
			if x == nil {
				return nil
			}
			return sharedList().Print(x, t, w)
		}
	}
	return []writeOp{
		{"encode", func(smf *midi.SMF, w io.Writer) error { return midifile.NewEncoder(w).Encode(*smf) }},
		{"list", func(smf *midi.SMF, w io.Writer) error { return sharedList().Print(smf, "document", w) }},
		{"list MThd", printed(func(smf *midi.SMF) any { return smf.MThd }, "MThd")},
		{"list MTrk", printed(func(smf *midi.SMF) any {
			if len(smf.Tracks) == 0 {
				return nil
			}
			return smf.Tracks[len(smf.Tracks)-1]
		}, "MTrk")},
		{"export", func(smf *midi.SMF, w io.Writer) error {
			x, err := export.NewExport()
			if err != nil {
				return err
			}
			return x.Export(smf, w)
		}},
		{"notes", func(smf *midi.SMF, w io.Writer) error {
			x := notes.Notes{Writer: w}
			return x.Execute(smf)
		}},
		{"notes JSON", func(smf *midi.SMF, w io.Writer) error {
			x := notes.Notes{Writer: w, JSON: true}
			return x.Execute(smf)
		}},
		{"custom list", func(smf *midi.SMF, w io.Writer) error {
			d, err := disassemble.NewDisassemble()
			if err != nil {
				return err
			}
			if err := d.LoadTemplates(strings.NewReader(`{"templates":{"event":"{{.Tick}}\n"}}`)); err != nil {
				return err
			}
			return d.Print(smf, "document", w)
		}},
	}
}

var wholes sync.Map

// arg: "op limit mode"
func writeFaultOracle(in []byte, arg string) (string, error) {
	p := strings.Split(arg, "/")
	k, _ := strconv.Atoi(p[0])
	limit, _ := strconv.Atoi(p[1])
	op := writeOps()[k]
	smf, err := decode(in)
	if err != nil {
		return "", err
	}
	// the complete output
	key := p[0] + string(in)
	var whole *bytes.Buffer
	if x, ok := wholes.Load(key); ok {
		whole = x.(*bytes.Buffer)
	} else {
		whole = &bytes.Buffer{}
		if err := op.Run(smf, whole); err != nil {
			return "error without a fault", nil
		}
		wholes.Store(key, whole)
		if smf, err = decode(in); err != nil {
			return "", err
		}
	}
	w := &faultyWriter{limit: limit, mode: p[2]}
	err = op.Run(smf, w)
	switch {
	case limit >= whole.Len() && err != nil:
		return "", fmt.Errorf("%s: %v, writing %d bytes where %d are accepted", op.Name, err, whole.Len(), limit)
	case limit < whole.Len() && err == nil:
		return "", fmt.Errorf("%s: reported as written, but only %d of %d bytes were accepted (%s)", op.Name, limit, whole.Len(), p[2])
	case !bytes.HasPrefix(whole.Bytes(), w.b.Bytes()):
		return "", fmt.Errorf("%s: the bytes accepted with a failure at %d (%s) are not a prefix of the output: %s", op.Name, limit, p[2], firstDiff(whole.String(), w.b.String()))
	case limit >= whole.Len() && w.b.Len() != whole.Len():
		return "", fmt.Errorf("%s: %d bytes written instead of %d", op.Name, w.b.Len(), whole.Len())
	}
	return op.Name + ifelse(err != nil, ": reported", ": written"), nil
}

// ---- the commands, with a limit on the size of files

type cmdCase struct {
	Name string
	Ext  string // of the input
	Args []string
	Cmd  commands.Command
}

func cmdCases() []cmdCase {
	return []cmdCase{
		{"disassemble", ".mid", []string{"--out", "OUT"}, &commands.Disassemble},
		{"disassemble stdout", ".mid", nil, &commands.Disassemble},
		{"disassemble --split", ".mid", []string{"--split"}, &commands.Disassemble},
		{"assemble text", ".txt", []string{"--out", "OUT"}, &commands.Assemble},
		{"assemble text default", ".txt", nil, &commands.Assemble},
		{"assemble JSON", ".json", []string{"--out", "OUT"}, &commands.Assemble},
		{"notes", ".mid", []string{"--out", "OUT"}, &commands.Notes},
		{"notes stdout", ".mid", nil, &commands.Notes},
		{"notes --json", ".mid", []string{"--json", "--out", "OUT"}, &commands.Notes},
		{"export", ".mid", []string{"--out", "OUT"}, &commands.Export},
		{"export stdout", ".mid", nil, &commands.Export},
		{"transpose", ".mid", []string{"--semitones", "3", "--out", "OUT"}, &commands.Transpose},
		{"tsv", ".mid", []string{"--out", "OUT"}, &commands.TSV},
		{"tsv stdout", ".mid", nil, &commands.TSV},
		{"tsv --delimiter", ".mid", []string{"--delimiter", ",", "--out", "OUT"}, &commands.TSV},
		{"tsv --tabular", ".mid", []string{"--tabular", "--out", "OUT"}, &commands.TSV},
		{"tsv --tabular stdout", ".mid", []string{"--tabular"}, &commands.TSV},
	}
}

func setFileLimit(n uint64) {
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = min(n, l.Max)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

// Runs a command in this process (not for concurrent use) in a directory of its own, where files are
// limited to limit bytes (-1: not limited). Gives the files it wrote.
func cmdRun(c cmdCase, in []byte, limit int) (map[string]string, error) {
	signal.Ignore(syscall.SIGXFSZ)
	dir := scratchFile(".d")
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	src := in
	switch c.Ext {
	case ".txt":
		src = []byte(textOf(in))
	case ".json":
		src = jsonOf(in)
	}
	f := filepath.Join(dir, "x"+c.Ext)
	if err := os.WriteFile(f, src, 0600); err != nil {
		panic(err)
	}
	args := []string{}
	out := false
	for _, a := range c.Args {
		if a == "OUT" {
			a = filepath.Join(dir, "out")
			out = true
		}
		args = append(args, a)
	}
	if !out {
		w, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			panic(err)
		}
		defer w.Close()
		defer func(f *os.File) { os.Stdout = f }(os.Stdout)
		os.Stdout = w
	}
	fs := c.Cmd.Flagset(flag.NewFlagSet("x", flag.ContinueOnError))
	if err := fs.Parse(append(args, f)); err != nil {
		return nil, err
	}
	var err error
	func() {
		if limit >= 0 {
			setFileLimit(uint64(limit))
			defer setFileLimit(1 << 62)
		}
		err = c.Cmd.Execute(fs)
	}()
	files := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, e error) error {
		if e == nil && !i.IsDir() && p != f {
			b, _ := os.ReadFile(p)
			files[p[len(dir)+1:]] = string(b)
		}
		return nil
	})
	return files, err
}

// arg: "command limit"
func cmdFaultOracle(in []byte, arg string) (string, error) {
	var k, limit int
	fmt.Sscan(arg, &k, &limit)
	c := cmdCases()[k]
	whole, err := cmdRun(c, in, -1)
	if err != nil {
		return "", fmt.Errorf("%s: %v", c.Name, err)
	}
	got, err := cmdRun(c, in, limit)
	over := false
	for name, s := range whole {
		over = over || len(s) > limit
		g := got[name]
		if !strings.HasPrefix(s, g) {
			return "", fmt.Errorf("%s: %s with a failure at byte %d is not a prefix of the complete output: %s", c.Name, name, limit, firstDiff(s, g))
		}
		if err == nil && g != s {
			return "", fmt.Errorf("%s: no error, but %s has only %d of %d bytes", c.Name, name, len(g), len(s))
		}
	}
	if !over && err != nil {
		return "", fmt.Errorf("%s: %v, with room for everything", c.Name, err)
	}
	return c.Name + ifelse(err == nil, ": written", ": reported"), nil
}

func cmdOutputSize(k int, in []byte) int {
	n := 0
	whole, err := cmdRun(cmdCases()[k], in, -1)
	if err != nil {
		return 0
	}
	for _, s := range whole {
		n = max(n, len(s))
	}
	return n
}

// ---- the program, with a full device

func programPath() string { return filepath.Join(os.Getenv("MC_BUILD"), "midiasm") }

func fullDeviceCases() []string {
	return []string{
		"x.mid", "--out FULL x.mid", "disassemble x.mid", "disassemble --out FULL x.mid",
		"assemble --out FULL x.txt", "assemble --out FULL x.json", "notes x.mid", "notes --out FULL x.mid", "notes --json x.mid", "notes --json --out FULL x.mid",
		"export x.mid", "export --out FULL x.mid", "transpose --semitones 2 --out FULL x.mid",
		"tsv x.mid", "tsv --out FULL x.mid", "tsv --tabular x.mid", "tsv --tabular --out FULL x.mid",
	}
}

func fullDeviceOracle(in []byte, arg string) (string, error) {
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return "no full device", nil
	}
	defer full.Close()
	dir := scratchFile(".d")
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "x.mid"), in, 0600)
	os.WriteFile(filepath.Join(dir, "x.txt"), []byte(textOf(in)), 0600)
	os.WriteFile(filepath.Join(dir, "x.json"), jsonOf(in), 0600)
	os.Symlink("/dev/full", filepath.Join(dir, "full"))
	run := func(full *os.File) int {
		cmd := exec.Command(programPath(), strings.Fields(strings.Replace(arg, "FULL", "full", 1))...)
		cmd.Dir = dir
		if full != nil {
			cmd.Stdout = full
		}
		if err := cmd.Run(); err != nil && cmd.ProcessState == nil {
			return -1
		}
		return cmd.ProcessState.ExitCode()
	}
	var code int
	if strings.Contains(arg, "FULL") {
		code = run(nil)
	} else {
		code = run(full)
	}
	switch code {
	case -1:
		return "the program does not run", nil
	case 0:
		return "", fmt.Errorf("midiasm %s exits with 0 although its output device is full", arg)
	}
	return "reported", nil
}

func init() {
	oracle("write-fault", writeFaultOracle)
	oracle("command-fault", cmdFaultOracle)
	oracle("full-device", fullDeviceOracle)
	check(&Check{ID: "P21", Level: "fault_enumeration",
		Rule:  "a write failure at every byte offset of the output of every operation on a corpus, in four modes (partial, none, short, transient), and of every command writing to a file with a size limit; a full device for every command of the program; result (error or exit status) and prefix of the complete output checked for each",
		Assum: []string{"writers keep to io.Writer: fewer bytes than given come with an error", "failures of close are not injected"},
		Run:   runP21})
}

func runP21(r *R) {
	modes := append([]string{"part", "none", "short", "once"}, ioErrorNames...)
	docs := corpus()
	if !r.Thorough() {
		docs = docs[:len(docs)-1]
	}
	type job struct {
		in     []byte
		k, lim int
		mode   string
	}
	for k, op := range writeOps() {
		jobs := []job{}
		for d, doc := range docs {
			if !r.Thorough() && d > 2 && op.Name == "list MTrk" {
				break
			}
			smf, err := decode(doc.B)
			if err != nil {
				r.violate("write-fault", doc.B, fmt.Sprintf("%d/0/part", k), err)
				return
			}
			var b bytes.Buffer
			op.Run(smf, &b)
			for m := range modes {
				for l := 0; l <= b.Len()+1; l++ {
					if !r.Thorough() && (d > 1 && m > 0 || d > 0 && m > 3) && l%len(modes) != m { // quick: all modes at all offsets for two files
						continue
					}
					jobs = append(jobs, job{doc.B, k, l, modes[m]})
				}
			}
		}
		r.Par("write faults: "+op.Name, len(jobs), func(w *W, i int) bool {
			j := jobs[i]
			return w.Case("write-fault", j.in, fmt.Sprintf("%d/%d/%s", j.k, j.lim, j.mode))
		})
	}
	small := fileN(1, 96, cat(meta(0, 0x51, []byte{7, 0xa1, 0x20}), eot), cat(meta(0, 3, []byte("A\"b")), ch(0, 0x90, 60, 64), ch(96, 60, 0), eot))
	in := [][]byte{small}
	if r.Thorough() {
		in = append(in, fileN(1, 480, tempoTrack(), melody(3), everything()))
	}
	for _, b := range in {
		for k, c := range cmdCases() {
			n := cmdOutputSize(k, b)
			r.Seq("file size limits: "+c.Name, n+2, func(w *W, i int) bool { return w.Case("command-fault", b, fmt.Sprint(k, " ", i)) })
		}
	}
	// the parts of a split listing: each of the tracks the longest
	for k, c := range cmdCases() {
		if !strings.Contains(c.Name, "split") {
			continue
		}
		for j := 0; j < 4; j++ {
			ts := [][]byte{eot, eot, eot, eot}
			ts[j] = cat(meta(0, 3, []byte("longest")), eot)
			b := fileN(1, 96, ts...)
			n := cmdOutputSize(k, b)
			r.Seq(fmt.Sprintf("file size limits: %s, track %d longest", c.Name, j), n+2, func(w *W, i int) bool { return w.Case("command-fault", b, fmt.Sprint(k, " ", i)) })
		}
	}
	// outputs of more than 64 kB: a failure around every power of two and at the end
	long := []byte{}
	for i := 0; i < 3000; i++ {
		long = append(long, ch(uint32(i%3), 0x90|byte(i%2), byte(i/2%100), byte(1-i/200%2))...)
	}
	for i := 0; i < 30; i++ {
		long = append(long, meta(0, 1, []byte(strings.Repeat("Text, 30 of them. ", 200)))...)
	}
	long = fileN(1, 96, tempoTrack(), cat(long, eot))
	for k, c := range cmdCases() {
		n := cmdOutputSize(k, long)
		ls := []int{0, 1, n - 1, n, n + 1}
		for p := 512; p < n; p *= 2 {
			ls = append(ls, p-1, p, p+1)
			if !r.Thorough() {
				p *= 4
			}
		}
		r.Seq("file size limits, long outputs: "+c.Name, len(ls), func(w *W, i int) bool { return w.Case("command-fault", long, fmt.Sprint(k, " ", ls[i])) })
	}
	big := fileN(1, 480, tempoTrack(), melody(3), melody(4))
	fd := fullDeviceCases()
	sort.Strings(fd)
	r.Par("full device", len(fd)*2, func(w *W, i int) bool {
		return w.Case("full-device", [][]byte{small, big}[i%2], fd[i/2])
	})
	r.Sample(map[string]any{"operation": "export", "fault": "the write that passes byte 100 fails after the bytes up to 100", "oracle": "the operation returns an error and the bytes accepted are a prefix"})
}
