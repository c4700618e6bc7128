package main

// The properties hold for the program, not only for the library behind it: every command that shows a
// property is run on a set of files, in both conventions, and its output compared with that of the operation
// (which the check of the property compares with its reference).

import (
	"fmt"
	"path/filepath"
	"strings"
)

func programFiles(r *R) []Named {
	out := append([]Named{}, corpus()...)
	tracks := func(n int) []byte {
		ts := [][]byte{tempoTrack()}
		for k := 1; k < n; k++ {
			ts = append(ts, ifelse(k == 4, everything(), cat(meta(0, 3, []byte(fmt.Sprint("track ", k))), ch(uint32(k), 0x90|byte(k%16), byte(k%128), 1), ch(3, 0x80|byte(k%16), byte(k%128), 1), eot)))
		}
		return fileN(1, 96, ts...)
	}
	for _, n := range []int{2, 9, 10, 11, 12, 16, 17, 100, 101, 129, 257} {
		out = append(out, Named{fmt.Sprint(n, " tracks"), tracks(n)})
	}
	keys := []byte{}
	for _, k := range []int8{0, -1, 3, 0, -7, 7, 1, -2} {
		keys = append(keys, cat(meta(0, 0x59, []byte{byte(k), byte(k & 1)}), ch(1, 0x90, 61, 64), ch(2, 0x90, 70, 1), ch(3, 0x80, 61, 0), ch(0, 0x90, 127, 5), ch(0, 0x90, 0, 5))...)
	}
	out = append(out, Named{"keys", fileN(1, 96, tempoTrack(), cat(keys, eot))}, Named{"keys 0", fileN(0, 96, cat(keys, eot))},
		Named{"tempo changes", fileN(1, 7, cat(meta(0, 0x51, []byte{1, 2, 3}), meta(50, 0x51, []byte{9, 0, 1}), meta(500, 0x51, []byte{0, 0, 1}), eot), cat(ch(0, 0x90, 1, 1), ch(100, 0x80, 1, 1), ch(1000, 0x91, 1, 1), meta(100000, 0x2f, nil)))},
		Named{"problems", fileN(1, 96, cat(ch(0, 0xb1, 0, 1), ch(0, 0x90, 1, 1), eot, eot), cat(meta(0, 0x51, []byte{1, 2, 3}), ch(0, 0xb2, 0x20, 3)), cat(ch(0, 0xb2, 0, 3), ch(0, 0xb3, 0x20, 3), eot))},
		Named{"problems 0", fileN(0, 96, melody(1), melody(2))}, Named{"problems 2", fileN(2, 96, cat(ch(0, 0xb1, 0, 1)), cat(eot, eot))},
		Named{"texts", fileN(0, 96, cat(meta(0, 1, []byte("a,b;c\"d\"")), meta(0, 2, []byte("tab\there")), meta(0, 3, []byte("ünï ♯♭ 音")), meta(0, 5, []byte("MTrk MThd delta:1 NoteOn")), meta(0, 6, nil), eot))},
		Named{"many events", fileN(1, 480, tempoTrack(), cat(repeat(cat(ch(3, 0x95, 0x40, 0x41), ch(4, 0x85, 0x40, 0x41)), 3000), eot))})
	return out
}

// arg: the command line before --out and the input; "stdout", "out" or "default": where the output is expected
func programOracle(in []byte, arg string) (string, error) {
	line, where, _ := strings.Cut(arg, "|")
	args := strings.Fields(line)
	c4 := strings.Contains(line, "--C4")
	asm := args[0] == "assemble"
	ext := ".mid"
	if asm {
		ext = args[len(args)-1]
		args = args[:len(args)-1]
	}
	num := func(flag string) (n int) {
		for i, a := range args[:len(args)-1] {
			if a == flag {
				fmt.Sscan(args[i+1], &n)
			}
		}
		for _, a := range args {
			if v, ok := strings.CutPrefix(a, flag+"="); ok {
				fmt.Sscan(v, &n)
			}
		}
		return
	}

	// what the operation gives
	want := map[string]string{}
	src := in
	problems := []string{}
	err := func() error {
		cliLock.Lock()
		defer cliLock.Unlock()
		setMiddleC(ifelse(c4, "C4", ""))
		defer setMiddleC("")
		smf, err := decode(in)
		if err != nil {
			return err
		}
		out := ifelse(where == "default", "x.midi", where)
		var b []byte
		var s string
		if !asm {
			for _, p := range smf.Validate() {
				problems = append(problems, fmt.Sprint(p))
			}
		}
		switch {
		case asm && ext == ".json":
			src = jsonOf(in)
			b, err = assembleJSON(src)
		case asm:
			src = []byte(textOf(in))
			b, err = assembleText(string(src))
		case args[0] == "notes":
			b, err = noteList(smf, num("--transpose"), strings.Contains(line, "--json"))
		case args[0] == "export":
			b, err = exportJSON(smf)
		case args[0] == "transpose":
			b, err = transposed(smf, num("--semitones"))
		case args[0] == "tsv" && where == "stdout":
			s, err = tsvRun(in, "stdout")
			b = []byte(s)
		case args[0] == "tsv":
			rest := []string{}
			for _, a := range args[1:] {
				if a != "--C4" {
					rest = append(rest, a)
				}
			}
			s, err = tsvRun(in, rest...)
			b = []byte(s)
		case strings.Contains(line, "--split"):
			dir, base := "", "x"
			if where == "out" {
				dir, base = "out", "" // the base name is unspecified
			}
			if s, err = listFresh(smf.MThd, "MThd"); err != nil {
				return err
			}
			want[filepath.Join(dir, base+".MThd")] = s
			for i, t := range smf.Tracks {
				if s, err = listFresh(t, "MTrk"); err != nil {
					return err
				}
				want[filepath.Join(dir, fmt.Sprintf("%s-%d.MTrk", base, i))] = s
			}
			return nil
		default:
			s, err = listFresh(smf, "document")
			b = []byte(s)
		}
		if err == nil {
			want[out] = string(b)
		}
		return err
	}()
	if where == "out" {
		args = append(args, "--out", "out")
	}
	res, e := cliRun(map[string][]byte{"x" + ext: src}, nil, append(args, "x"+ext))
	if e != nil {
		return "the program does not run", nil
	}
	fail := func(format string, a ...any) (string, error) {
		return "", fmt.Errorf("midiasm %s: %s\nexit status %d, stdout: %s\nstderr: %s", strings.Join(args, " "), fmt.Sprintf(format, a...), res.code, trim(res.out, 300), trim(res.errs, 500))
	}
	switch {
	case res.code == -2:
		return fail("does not return")
	case res.code < 0 || strings.Contains(res.errs, "goroutine "):
		return fail("crash")
	case err != nil && res.code == 0:
		return fail("success, where the operation fails: %v", err)
	case err == nil && res.code != 0:
		return fail("failure, where the operation succeeds")
	case err != nil:
		return "failure", nil
	}
	delete(res.files, "x"+ext)
	got := map[string]string{}
	for n, b := range res.files {
		if where == "out" && strings.Contains(line, "--split") { // without the base name
			d, f := filepath.Split(n)
			if i := strings.LastIndexAny(f, "-"); i >= 0 && strings.HasSuffix(f, ".MTrk") {
				f = f[i:]
			} else if strings.HasSuffix(f, ".MThd") {
				f = ".MThd"
			}
			n = filepath.Join(d, f)
			if _, dup := got[n]; dup {
				return fail("two files for %s", n)
			}
		}
		got[n] = b
	}
	if where == "stdout" {
		got["stdout"] = res.out
	}
	for n, b := range want {
		if g, ok := got[n]; !ok {
			return fail("%s is not written", n)
		} else if g != b {
			if args[0] == "tsv" && where == "stdout" {
				continue // the form asked for is fine too; the contents are compared in the in-process checks
			}
			return fail("%s: %s", n, firstDiff(b, g))
		}
	}
	if len(got) != len(want) {
		return fail("%d outputs instead of %d", len(got), len(want))
	}
	// the problems found by validation
	if !asm {
		lines := map[string]int{}
		warnings := 0
		for _, l := range strings.Split(res.errs, "\n") {
			if i := strings.Index(l, "** "); i >= 0 {
				lines[strings.TrimSpace(l[i+3:])]++
				warnings++
			}
		}
		for _, p := range problems {
			if lines[p] == 0 && !strings.Contains(res.errs+res.out, p) {
				return fail("validation finds %q, which is not shown", p)
			}
		}
		if warnings > len(problems) {
			return fail("%d validation warnings instead of %d", warnings, len(problems))
		}
	}
	return "success", nil
}

func init() { oracle("program", programOracle) }

// Runs the program with each command line on each file.
func programCases(r *R, lines ...string) {
	files := programFiles(r)
	// a large file (5 MB), once for every third command line
	huge := fileN(1, 480, tempoTrack(), cat(repeat(cat(ch(3, 0x95, 0x40, 0x41), ch(4, 0x85, 0x40, 0x41)), 20000), meta(1, 0x7f, repeat([]byte{1, 2, 3, 4}, 1200000)), ch(1, 0x90, 1, 1), eot), melody(2))
	r.Par("the program on a large file", (len(lines)+2)/3, func(w *W, i int) bool { return w.Case("program", huge, lines[3*i]) })
	r.Par("the program: command lines x files", len(files)*len(lines), func(w *W, i int) bool {
		return w.Case("program", files[i/len(lines)].B, lines[i%len(lines)])
	})
}

func programLines(lines ...string) []string {
	out := []string{}
	for _, l := range lines {
		c, where, _ := strings.Cut(l, "|")
		out = append(out, l)
		f := strings.Fields(c)
		out = append(out, strings.Join(append([]string{f[0], "--C4"}, f[1:]...), " ")+"|"+where)
	}
	return out
}
