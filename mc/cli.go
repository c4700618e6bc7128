package main

// The command line (P20): the program in a directory of its own, over every combination of command,
// options, input and output.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/disassemble"
)

type cliCommand struct {
	Name string
	Args []string
	Kind string // "mid" or "asm": what it reads
	Out  string // "stdout": by default; "file": the --out option only; "asm": a default name; "split"; "never"
	Run  func(smf *midi.SMF) ([]byte, error)
}

const customTemplates = `{"templates":{"noteon":"*{{.Note.Name}}*","MThd":"{{.Format}}\n"}}`

func customList(x any, template string) (string, error) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	if err := d.LoadTemplates(strings.NewReader(customTemplates)); err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = d.Print(x, template, &b)
	return b.String(), err
}

func cliCommands() []cliCommand {
	tsv := func(args ...string) func(smf *midi.SMF) ([]byte, error) { return nil }
	ls := func(smf *midi.SMF) ([]byte, error) { s, err := listFresh(smf, "document"); return []byte(s), err }
	nt := func(steps int, js bool) func(smf *midi.SMF) ([]byte, error) {
		return func(smf *midi.SMF) ([]byte, error) { return noteList(smf, steps, js) }
	}
	tp := func(n int) func(smf *midi.SMF) ([]byte, error) {
		return func(smf *midi.SMF) ([]byte, error) { return transposed(smf, n) }
	}
	custom := func(smf *midi.SMF) ([]byte, error) { s, err := customList(smf, "document"); return []byte(s), err }
	return []cliCommand{
		{"default", nil, "mid", "stdout", ls},
		{"disassemble", []string{"disassemble"}, "mid", "stdout", ls},
		{"templates", []string{"disassemble", "--templates", "templates.json"}, "mid", "stdout", custom},
		{"split", []string{"disassemble", "--split"}, "mid", "split", nil},
		{"split templates", []string{"disassemble", "--split", "--templates", "templates.json"}, "mid", "split", nil},
		{"default split", []string{"--split"}, "mid", "split", nil},
		{"assemble", []string{"assemble"}, "asm", "asm", nil},
		{"notes", []string{"notes"}, "mid", "stdout", nt(0, false)},
		{"notes json", []string{"notes", "--json"}, "mid", "stdout", nt(0, true)},
		{"notes transposed", []string{"notes", "--transpose", "7"}, "mid", "stdout", nt(7, false)},
		{"notes transposed down", []string{"notes", "--json", "--transpose", "-12"}, "mid", "stdout", nt(-12, true)},
		{"click", []string{"click"}, "mid", "stdout", clicks},
		{"export", []string{"export"}, "mid", "stdout", exportJSON},
		{"transpose up", []string{"transpose", "--semitones", "5"}, "mid", "file", tp(5)},
		{"transpose down", []string{"transpose", "--semitones", "-13"}, "mid", "file", tp(-13)},
		{"transpose", []string{"transpose"}, "mid", "file", tp(0)},
		{"tsv", []string{"tsv"}, "mid", "stdout", tsv()},
		{"tsv ,", []string{"tsv", "--delimiter", ","}, "mid", "stdout", tsv("--delimiter", ",")},
		{"tsv tabular", []string{"tsv", "--tabular"}, "mid", "stdout", tsv("--tabular")},
		{"humanise", []string{"humanise"}, "mid", "never", nil},
	}
}

type cliInput struct {
	Name  string
	File  string // relative path
	B     []byte
	Valid bool
	Src   []byte // the MIDI file it stands for
}

var cliInputsOnce = map[string]func() []cliInput{
	"mid": sync.OnceValue(func() []cliInput { return makeCliInputs("mid") }),
	"asm": sync.OnceValue(func() []cliInput { return makeCliInputs("asm") }),
}

func cliInputs(kind string) []cliInput { return cliInputsOnce[kind]() }

func makeCliInputs(kind string) []cliInput {
	a := fileN(1, 480, tempoTrack(), melody(3), melody(4))
	b := fileN(0, 96, everything())
	c := fileN(1, 96, cat(ch(0, 0x90, 61, 1), eot), cat(meta(0, 0x51, []byte{7, 0xa1, 0x20}), ch(5, 0x80, 61, 1))) // validation warnings
	none := hdr(1, 0, 96)
	many := [][]byte{tempoTrack(), cat(repeat(cat(ch(3, 0x95, 0x40, 0x41), ch(4, 0x85, 0x40, 0x41)), 1500), eot)}
	for i := 2; i < 130; i++ {
		many = append(many, cat(meta(0, 3, []byte(fmt.Sprint("track ", i))), eot))
	}
	large := fileN(1, 480, many...)
	huge := fileN(0, 96, cat(meta(0, 1, fill(5<<20)), ch(0, 0x90, 60, 1), ch(96, 0x80, 60, 1), eot)) // longer than any buffer
	in := []cliInput{}
	if kind == "mid" {
		in = []cliInput{
			{"three tracks", "x.mid", a, true, a}, {"one track", "dir.d/y.z.MID", b, true, b}, {"warnings", "noext", c, true, c}, {"no tracks", "x.midi", none, true, none}, {"large", "./large.mid", large, true, large}, {"huge", "huge.mid", huge, true, huge},
			{"blanks", " a  b.mid ", b, true, b}, {"percent", "100%d ~$x*[1].mid", a, true, a}, {"not ASCII", "dir.d/f\u00fcr \u97f3 Elise.mid", b, true, b},
			{"empty", "x.mid", nil, false, nil}, {"garbage", "x.mid", []byte("this is not a MIDI file"), false, nil}, {"truncated", "x.mid", a[:len(a)-9], false, nil},
			{"invalid event", "x.mid", file1(ch(0, 0x90, 0x80, 1), eot), false, nil}, {"text", "x.mid", []byte("MThd length:6"), false, nil},
			{"header only", "x.mid", a[:14], false, nil},
		}
	} else {
		ta, tb := []byte(textOf(a)), []byte(textOf(b))
		ja, jb := jsonOf(a), jsonOf(b)
		tl, jl := []byte(textOf(large)), jsonOf(large)
		in = []cliInput{
			{"text", "x.txt", ta, true, a}, {"text, no extension", "noext", tb, true, b}, {"text, several dots", "dir.d/a.b.txt", tb, true, b}, {"text, other", "x.asm", ta, true, a},
			{"JSON", "x.json", ja, true, a}, {"JSON, dots", "dir.d/a.b.json", jb, true, b}, {"large text", "large.txt", tl, true, large}, {"large JSON", "./dir.d/large.json", jl, true, large}, {"huge text", "huge.txt", []byte(textOf(huge)), true, huge}, {"huge JSON", "huge.json", jsonOf(huge), true, huge},
			{"blanks", " a  b.txt ", tb, true, b}, {"blanks JSON", " a  b .json", jb, true, b}, {"percent", "100%d ~$x*[1].txt", ta, true, a}, {"not ASCII", "dir.d/f\u00fcr \u97f3 Elise.json", jb, true, b},
			{"empty text", "x.txt", nil, false, nil}, {"empty JSON", "x.json", nil, false, nil}, {"garbage text", "x.txt", []byte("this is not a listing"), false, nil},
			{"invalid event", "x.txt", append(append([]byte{}, ta...), "  delta:0  90 NoteOn channel:99 note:C3 velocity:1\n"...), false, nil},
			{"truncated JSON", "x.json", ja[:len(ja)-20], false, nil}, {"text as JSON", "x.json", ta, false, nil}, {"JSON as text", "x.txt", ja, false, nil},
		}
	}
	in = append(in, cliInput{Name: "missing", File: "nosuchfile" + ifelse(kind == "mid", ".mid", ".txt")}, cliInput{Name: "directory", File: "dir.d"}, cliInput{Name: "no argument"})
	return in
}

var cliOutputs = []string{"default", "new", "existing", "existing long", "no directory", "directory", "subdirectory", "default existing"}
var cliFlags = []string{"", "--C4", "--verbose", "--debug", "--C4 --verbose", "--C4 --debug", "--verbose --debug", "--C4 --verbose --debug"}

// ---- running the program

type cliResult struct {
	code        int
	out, errs   string
	files       map[string]string // everything in the directory after the run
	directories map[string]bool
}

func cliRun(files map[string][]byte, dirs []string, args []string) (cliResult, error) {
	dir := scratchFile(".d")
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, d := range dirs {
		os.MkdirAll(filepath.Join(dir, d), 0700)
	}
	for name, b := range files {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0600); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(programPath(), args...)
	cmd.Dir = dir
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		return cliResult{}, err
	}
	t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !t.Stop() {
		return cliResult{code: -2}, nil
	}
	r := cliResult{code: cmd.ProcessState.ExitCode(), out: out.String(), errs: errs.String(), files: map[string]string{}, directories: map[string]bool{}}
	filepath.Walk(dir, func(p string, i os.FileInfo, e error) error {
		if e != nil || p == dir {
			return nil
		}
		if i.IsDir() {
			r.directories[p[len(dir)+1:]] = true
		} else {
			b, _ := os.ReadFile(p)
			r.files[p[len(dir)+1:]] = string(b)
		}
		return nil
	})
	return r, nil
}

// The result of the operation of a command on a file, with a middle C convention.
var cliExpected sync.Map
var cliLock sync.Mutex

func expected(c int, src []byte, c4, stdout bool) (string, error) {
	key := fmt.Sprint(c, c4, stdout, string(src))
	if x, ok := cliExpected.Load(key); ok {
		return x.(string), nil
	}
	cliLock.Lock() // the middle C convention and the tsv command are process wide
	defer cliLock.Unlock()
	setMiddleC(ifelse(c4, "C4", ""))
	defer setMiddleC("")
	cmd := cliCommands()[c]
	smf, err := decode(src)
	if err != nil {
		return "", err
	}
	var s string
	switch {
	case cmd.Run != nil:
		b, err := cmd.Run(smf)
		if err != nil {
			return "", err
		}
		s = string(b)
	case strings.HasPrefix(cmd.Name, "tsv"):
		if stdout { // fixed width, whatever the options
			s, err = tsvRun(src, "stdout")
		} else {
			s, err = tsvRun(src, cmd.Args[1:]...)
		}
		if err != nil {
			return "", err
		}
	case strings.Contains(cmd.Name, "split"):
		parts := []string{}
		list := listFresh
		if strings.Contains(cmd.Name, "templates") {
			list = customList
		}
		x, err := list(smf.MThd, "MThd")
		if err != nil {
			return "", err
		}
		parts = append(parts, x)
		for _, t := range smf.Tracks {
			if x, err = list(t, "MTrk"); err != nil {
				return "", err
			}
			parts = append(parts, x)
		}
		b, _ := json.Marshal(parts)
		s = string(b)
	}
	cliExpected.Store(key, s)
	return s, nil
}

func assembled(in cliInput, c4 bool) (string, error) {
	cliLock.Lock()
	defer cliLock.Unlock()
	setMiddleC(ifelse(c4, "C4", ""))
	defer setMiddleC("")
	var b []byte
	var err error
	if strings.HasSuffix(in.File, ".json") {
		b, err = assembleJSON(in.B)
	} else {
		b, err = assembleText(string(in.B))
	}
	return string(b), err
}

// arg: command, input, output, flags (indices)
func cliOracle(_ []byte, arg string) (string, error) {
	var ci, ii, oi, fi int
	fmt.Sscan(arg, &ci, &ii, &oi, &fi)
	c := cliCommands()[ci]
	in := cliInputs(c.Kind)[ii]
	output := cliOutputs[oi]
	c4 := strings.Contains(cliFlags[fi], "C4")

	files := map[string][]byte{"other.txt": []byte("unrelated"), "templates.json": []byte(customTemplates), "dir.d/inner": []byte("unrelated too")}
	dirs := []string{"dir.d", "out.d"}
	exists := in.Name != "missing" && in.Name != "directory" && in.Name != "no argument"
	if exists {
		files[filepath.Clean(in.File)] = in.B
	}
	if c.Kind == "asm" && c4 && exists { // the source in the other convention
		cliLock.Lock()
		setMiddleC("C4")
		if in.Valid {
			if strings.HasSuffix(in.File, ".json") {
				in.B = jsonOf(in.Src)
			} else {
				in.B = []byte(textOf(in.Src))
			}
			files[filepath.Clean(in.File)] = in.B
		}
		setMiddleC("")
		cliLock.Unlock()
	}
	args := append([]string{}, c.Args...)
	args = append(args, strings.Fields(cliFlags[fi])...)
	out, creatable := "", true
	stale := []string{}
	switch output {
	case "new":
		out = "out.x"
	case "existing":
		out = "out.x"
		files[out] = []byte("old")
	case "existing long":
		out = "out.x"
		files[out] = bytes.Repeat([]byte("old content\n"), 3000)
	case "default existing": // the default outputs exist, with other and longer content
		names := []string{}
		base := strings.TrimSuffix(in.File, filepath.Ext(in.File))
		switch {
		case in.Name == "no argument":
		case c.Kind == "asm":
			names = []string{base + ".midi"}
		case c.Out == "split":
			names = []string{base + ".MThd", base + "-0.MTrk", base + "-1.MTrk", base + "-7.MTrk"}
		}
		if len(names) == 0 {
			return "no default output", nil
		}
		for _, n := range names {
			stale = append(stale, filepath.Clean(n))
			files[filepath.Clean(n)] = bytes.Repeat([]byte("old content\n"), 30000)
		}
	case "no directory":
		out, creatable = "nosuchdir/out.x", false
	case "directory":
		out, creatable = "out.d", false
	case "subdirectory":
		out = "out.d/out.x"
	}
	if c.Out == "split" {
		switch output { // the output is a directory, created if there is none
		case "no directory", "directory", "new":
			creatable = true
		case "existing", "existing long":
			creatable = false
		}
	}
	if out != "" {
		args = append(args, "--out", out)
	}
	if in.Name != "no argument" {
		args = append(args, in.File)
	}
	if c.Out == "file" && out == "" {
		return "transpose without --out: unspecified", nil
	}
	before := map[string]string{}
	for n, b := range files {
		before[n] = string(b)
	}
	res, err := cliRun(files, dirs, args)
	if err != nil {
		return "the program does not run", nil
	}
	fail := func(format string, a ...any) (string, error) {
		return "", fmt.Errorf("midiasm %s (input: %s, output: %s): %s\nexit status %d, stdout: %s\nstderr: %s", strings.Join(args, " "), in.Name, output, fmt.Sprintf(format, a...), res.code, trim(res.out, 300), trim(res.errs, 500))
	}
	if res.code == -2 {
		return fail("does not return")
	}
	if strings.Contains(res.errs, "goroutine ") || res.code == -1 {
		return fail("crash")
	}
	// files other than the outputs
	unchanged := func(except ...string) error {
		skip := map[string]bool{}
		for _, e := range except {
			skip[e] = true
		}
		for n, b := range before {
			if skip[n] {
				continue
			}
			if got, ok := res.files[n]; !ok {
				return fmt.Errorf("%s is removed", n)
			} else if got != b {
				return fmt.Errorf("%s is changed: %s", n, firstDiff(b, got))
			}
		}
		for n := range res.files {
			if _, ok := before[n]; !ok && !skip[n] {
				return fmt.Errorf("%s is created", n)
			}
		}
		return nil
	}
	ok := in.Valid && creatable && c.Out != "never"
	if !ok {
		if res.code == 0 {
			return fail("failure reported as success")
		}
		if strings.TrimSpace(res.out+res.errs) == "" {
			return fail("failure without a message")
		}
		// an output that did not exist may be left behind
		skip := []string{}
		if _, existed := before[out]; !existed {
			skip = append(skip, out)
		}
		if err := unchanged(skip...); err != nil {
			return fail("after a failure %v", err)
		}
		return "failure: " + c.Name, nil
	}
	if res.code != 0 {
		return fail("exit status of a success")
	}
	if strings.Contains(res.out, "*** ERROR") && c.Out != "stdout" {
		return fail("error message with exit status 0")
	}
	switch {
	case c.Out == "split":
		want, err := expected(ci, in.Src, c4, out == "")
		if err != nil {
			return fail("the operation fails: %v", err)
		}
		parts := []string{}
		json.Unmarshal([]byte(want), &parts)
		dir, base := filepath.Dir(in.File), strings.TrimSuffix(filepath.Base(in.File), filepath.Ext(in.File))
		created := map[string]string{}
		names := []string{}
		for _, n := range stale { // rewritten if it is one of the parts
			for i := range parts {
				if n == filepath.Join(dir, ifelse(i == 0, base+".MThd", fmt.Sprintf("%s-%d.MTrk", base, i-1))) {
					delete(before, n)
				}
			}
		}
		for n, b := range res.files {
			if _, old := before[n]; !old {
				created[n] = b
				names = append(names, n)
			}
		}
		if len(created) != len(parts) {
			return fail("%d files created for a header and %d tracks: %v", len(created), len(parts)-1, names)
		}
		for i, p := range parts {
			name := base + ".MThd"
			if i > 0 {
				name = fmt.Sprintf("%s-%d.MTrk", base, i-1)
			}
			if out == "" {
				if got, ok := created[filepath.Join(dir, name)]; !ok {
					return fail("%s is not created, but %v", name, names)
				} else if got != p {
					return fail("%s: %s", name, firstDiff(p, got))
				}
				continue
			}
			found := false
			for n, b := range created {
				suffix := ifelse(i == 0, ".MThd", fmt.Sprintf("-%d.MTrk", i-1))
				if filepath.Dir(n) == out && strings.HasSuffix(n, suffix) {
					found = true
					if b != p {
						return fail("%s: %s", n, firstDiff(p, b))
					}
				}
			}
			if !found {
				return fail("part %d is not in the output directory: %v", i, names)
			}
		}
		if err := unchanged(names...); err != nil {
			return fail("%v", err)
		}
		return "split", nil
	case c.Kind == "asm":
		want, err := assembled(in, c4)
		if err != nil {
			return fail("the operation fails: %v", err)
		}
		if out == "" {
			out = filepath.Clean(strings.TrimSuffix(in.File, filepath.Ext(in.File)) + ".midi")
		}
		if got, ok := res.files[out]; !ok {
			return fail("%s is not created", out)
		} else if got != want {
			return fail("%s: %s", out, firstDiff(want, got))
		}
	default:
		want, err := expected(ci, in.Src, c4, out == "")
		if err != nil {
			return fail("the operation fails: %v", err)
		}
		if c.Name == "click" { // its blank lines go to standard output
			res.out, res.files[out], want = strings.TrimSpace(res.out), strings.TrimSpace(res.files[out]), strings.TrimSpace(want)
		}
		if out == "" {
			delete(res.files, out)
			if res.out != want && c.Args != nil && c.Args[0] == "tsv" { // the form asked for is fine too
				if want, err = expected(ci, in.Src, c4, false); err != nil {
					return fail("the operation fails: %v", err)
				}
			}
			if res.out != want {
				return fail("standard output: %s", firstDiff(want, res.out))
			}
		} else if got, ok := res.files[out]; !ok {
			return fail("%s is not created", out)
		} else if got != want {
			return fail("%s: %s", out, firstDiff(want, got))
		} else if strings.TrimSpace(res.out) != "" {
			return fail("the output goes to standard output too")
		}
	}
	if err := unchanged(out); err != nil {
		return fail("%v", err)
	}
	return "success: " + c.Name, nil
}

// Command lines that have to succeed ("0") or fail ("1").
var cliLines = map[string]string{
	"help": "0", "version": "0", "help assemble": "0", "help disassemble": "0", "help notes": "0", "help click": "0", "help export": "0", "help transpose": "0", "help tsv": "0", "help humanise": "0",
	"--nosuchflag x.mid": "1", "notes --nosuchflag x.mid": "1", "notes --transpose x x.mid": "1", "transpose --semitones 1.5 --out out.x x.mid": "1", "transpose --out out.x nosuch.mid": "1",
	"disassemble --templates nosuch.json --out out.x x.mid": "1", "disassemble --templates bad.json --out out.x x.mid": "1", "disassemble --templates x.mid --out out.x x.mid": "1",
	"--templates bad.json --out out.x x.mid": "1", "nosuchcommand": "1", "nosuchcommand x.mid": "1", "assemble --out out.x x.mid": "1", "tsv --nosuch --out out.x x.mid": "1",
	"": "1",
}

func cliLineOracle(_ []byte, arg string) (string, error) {
	files := map[string][]byte{"x.mid": file1(ch(0, 0x90, 60, 1), ch(9, 60, 0), eot), "bad.json": []byte(`{"templates":{"noteon":"{{"}}`), "out.x": []byte("old")}
	res, err := cliRun(files, nil, strings.Fields(arg))
	if err != nil {
		return "the program does not run", nil
	}
	if strings.Contains(res.errs, "goroutine ") {
		return "", fmt.Errorf("midiasm %s: crash: %s", arg, trim(res.errs, 500))
	}
	want := cliLines[arg]
	if (res.code == 0) != (want == "0") {
		return "", fmt.Errorf("midiasm %s: exit status %d\n%s", arg, res.code, trim(res.out+res.errs, 500))
	}
	if strings.TrimSpace(res.out+res.errs) == "" {
		return "", fmt.Errorf("midiasm %s: no output", arg)
	}
	for n, b := range files {
		if res.files[n] != string(b) {
			return "", fmt.Errorf("midiasm %s: %s is changed", arg, n)
		}
	}
	return "exit status " + want, nil
}

func init() {
	oracle("cli", cliOracle)
	oracle("cli-line", cliLineOracle)
	check(&Check{ID: "P20", Level: "exploration",
		Rule:  "the program run in a new directory for every combination of command (19), input (14 to 18: valid of several shapes and sizes, undecodable, missing), output (8: default, default existing, new, existing, uncreatable) and global options (8); exit status, standard output and every file of the directory compared with the result of the underlying operation",
		Assum: []string{"transpose without --out, the base name of split files in another directory, and outputs left incomplete by an operation that fails after decoding are outside the space (unspecified)"},
		Run:   runP20})
}

func runP20(r *R) {
	if _, err := os.Stat(programPath()); err != nil {
		r.violate("cli-line", nil, "version", fmt.Errorf("no program: %v", err))
		return
	}
	args := []string{}
	for ci, c := range cliCommands() {
		for ii, in := range cliInputs(c.Kind) {
			for oi := range cliOutputs {
				for fi := range cliFlags {
					if strings.Contains(in.Name, "large") && fi > 1 {
						continue
					}
					if strings.Contains(in.Name, "huge") && (fi > 0 || oi > 1) {
						continue
					}
					args = append(args, fmt.Sprint(ci, " ", ii, " ", oi, " ", fi))
				}
			}
		}
	}
	r.Par("commands x inputs x outputs x options", len(args), func(w *W, i int) bool { return w.Case("cli", nil, args[i]) })
	lines := []string{}
	for l := range cliLines {
		lines = append(lines, l)
	}
	r.Par("command lines", len(lines), func(w *W, i int) bool { return w.Case("cli-line", nil, lines[i]) })
	r.Sample(map[string]any{"args": "export --C4 --out out.x x.mid", "oracle": "exit status 0, out.x has the JSON of the export operation, no other file of the directory changes"})
}
