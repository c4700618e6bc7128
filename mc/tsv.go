package main

// TSV export (P16), through the tsv command with real files.

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/transcriptaze/midiasm/commands"
)

var tsvHeader = []string{"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details"}

func tsvCells(e *Ev) []string {
	v := e.V
	c := []string{fmt.Sprint(e.Tick), fmt.Sprint(e.Delta), e.Kind.String(), "", "", "", ""}
	if e.Status < 0xf0 {
		c[3] = fmt.Sprint(e.Ch)
	}
	switch e.Kind {
	case kNoteOn, kNoteOff:
		c[4], c[5], c[6] = fmt.Sprint(v[0]), fmt.Sprint(v[1]), e.S
	case kPolyphonicPressure, kChannelPressure, kPitchBend, kSequenceNumber, kMIDIChannelPrefix, kMIDIPort, kTempo:
		c[6] = fmt.Sprint(v[0])
	case kController:
		c[6] = fmt.Sprintf("%d:%s, %d", v[0], e.S, v[1])
	case kProgramChange:
		c[6] = fmt.Sprintf("%d, %d", v[0], v[1])
	case kSMPTEOffset:
		c[6] = fmt.Sprintf("offset %02d:%02d:%02d  frame rate %d:%d:%d", v[0], v[1], v[2], v[3], v[4], v[5])
	case kTimeSignature:
		c[6] = fmt.Sprintf("%d/%d, %d ticks/click, %d 32nds/quarter", v[0], v[1], v[2], v[3])
	case kKeySignature:
		c[6] = e.S
	case kSequencerSpecific:
		c[6] = fmt.Sprintf("%s [%s]", name2(e.S), hexs(e.Data[v[0]:]))
	case kSysExMessage:
		c[6] = fmt.Sprintf("[%d]:%s, %s", e.Data[0], strings.Replace(e.S, "|", ":", 1), hexs(e.Data[1:]))
	case kSysExContinuation, kSysExEscape:
		c[6] = hexs(e.Data)
	case kEndOfTrack:
	default:
		c[6] = e.S
	}
	return c
}

// The expected table: a header row, then one row per event position.
func tsvTable(f *File) [][]string {
	n := 0
	for _, t := range f.Trk {
		n = max(n, len(t))
	}
	rows := make([][]string, n+1)
	for i := range rows {
		for _, t := range f.Trk {
			switch {
			case i == 0:
				rows[i] = append(rows[i], tsvHeader...)
			case i <= len(t):
				rows[i] = append(rows[i], tsvCells(&t[i-1])...)
			default:
				rows[i] = append(rows[i], make([]string, len(tsvHeader))...)
			}
		}
	}
	return rows
}

// Runs the command in this process: not for concurrent use.
func tsvRun(in []byte, args ...string) (string, error) {
	f, out := scratchFile(".mid"), scratchFile(".tsv")
	if err := os.WriteFile(f, in, 0600); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	defer os.Remove(out)
	stdout := false
	for _, a := range args {
		stdout = stdout || a == "stdout"
	}
	fs := commands.TSV.Flagset(flag.NewFlagSet("tsv", flag.ContinueOnError))
	if stdout {
		w, err := os.Create(out)
		if err != nil {
			panic(err)
		}
		defer w.Close()
		defer func(f *os.File) { os.Stdout = f }(os.Stdout)
		os.Stdout = w
		args = args[1:]
	} else {
		args = append([]string{"--out", out}, args...)
	}
	if err := fs.Parse(append(append([]string{}, args...), f)); err != nil {
		return "", err
	}
	if err := commands.TSV.Execute(fs); err != nil {
		return "", err
	}
	b, err := os.ReadFile(out)
	if err != nil {
		panic(err)
	}
	return string(b), nil
}

// Reads a delimited table: fields that start with a quote end at the next single quote.
func parseTable(s string, delim rune) ([][]string, error) {
	rows := [][]string{}
	d := string(delim)
	for len(s) > 0 {
		row := []string{}
		for {
			var cell strings.Builder
			if strings.HasPrefix(s, "\"") {
				s = s[1:]
				for {
					k := strings.IndexByte(s, '"')
					if k < 0 {
						return rows, fmt.Errorf("row %d: unterminated quote", len(rows)+1)
					}
					cell.WriteString(s[:k])
					s = s[k+1:]
					if !strings.HasPrefix(s, "\"") {
						break
					}
					cell.WriteByte('"')
					s = s[1:]
				}
			} else {
				k := 0
				for k < len(s) && s[k] != '\n' && !strings.HasPrefix(s[k:], d) {
					if s[k] == '"' {
						return rows, fmt.Errorf("row %d: quote in an unquoted field", len(rows)+1)
					}
					k++
				}
				cell.WriteString(s[:k])
				s = s[k:]
			}
			row = append(row, cell.String())
			if strings.HasPrefix(s, d) {
				s = s[len(d):]
				continue
			}
			if strings.HasPrefix(s, "\n") {
				s = s[1:]
				break
			}
			if strings.HasPrefix(s, "\r\n") {
				s = s[2:]
				break
			}
			return rows, fmt.Errorf("row %d: no delimiter or line end after field %d (%q)", len(rows)+1, len(row), trim(s, 40))
		}
		rows = append(rows, row)
	}
	return rows, nil
}

func equalRow(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tsvOracle(in []byte, arg string) (string, error) {
	c, smf, f, err := decodeCheck(in)
	if err != nil {
		return c, err
	}
	if smf == nil {
		if _, err := tsvRun(in); err == nil {
			return "", fmt.Errorf("TSV export of a file that cannot be decoded")
		}
		return "decode " + c, nil
	}
	for _, t := range f.Trk {
		for i := range t {
			if t[i].AnyName { // one of two names: take the decoder's
				x, err := canon(smf)
				if err != nil {
					return "", err
				}
				f = x
				break
			}
		}
	}
	want := tsvTable(f)
	switch arg {
	case "tabular", "stdout":
		args := []string{"--tabular"}
		if arg == "stdout" {
			args = []string{"stdout"}
		}
		s, err := tsvRun(in, args...)
		if err != nil {
			return "", err
		}
		return arg, tabular(s, want)
	}
	args := []string{}
	delim := '\t'
	if arg != "" {
		args = append(args, "--delimiter", arg)
		if arg != `\t` {
			delim, _ = utf8.DecodeRuneInString(arg)
		}
	}
	s, err := tsvRun(in, args...)
	if strings.ContainsRune("\"\r\n\ufffd", delim) {
		if err == nil {
			return "", fmt.Errorf("delimiter %q accepted", arg)
		}
		return "invalid delimiter", nil
	}
	if err != nil {
		return "", err
	}
	if len(f.Trk) == 0 {
		return "no tracks", nil
	}
	rows, err := parseTable(s, delim)
	if err != nil {
		return "", err
	}
	// the repeated header row: known finding
	if len(rows) == len(want)+1 && equalRow(rows[0], tsvHeader) {
		rows = rows[1:]
	}
	if len(rows) != len(want) {
		return "", fmt.Errorf("expected %d rows, got %d", len(want), len(rows))
	}
	for i := range want {
		if !equalRow(want[i], rows[i]) {
			return "", fmt.Errorf("row %d: expected %q, got %q", i, want[i], rows[i])
		}
	}
	return fmt.Sprintf("%d tracks", len(f.Trk)), nil
}

// The fixed width form: the columns start where the headings do.
func tabular(s string, want [][]string) error {
	all := []string{}
	breaks := false
	for _, r := range want {
		all = append(all, strings.Join(r, " "))
		breaks = breaks || strings.ContainsAny(strings.Join(r, " "), "\n")
	}
	if a, b := collapse(strings.Join(all, "\n")), collapse(s); a != b {
		return fmt.Errorf("fixed width table: expected %q, got %q", trim(a, 1000), trim(b, 1000))
	}
	if breaks || len(want[0]) == 0 {
		return nil
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) != len(want) {
		return fmt.Errorf("fixed width table: expected %d lines, got %d", len(want), len(lines))
	}
	at := []int{}
	head := []rune(lines[0])
	p := 0
	for _, h := range want[0] {
		for p < len(head) && head[p] == ' ' {
			p++
		}
		if !strings.HasPrefix(string(head[p:]), h) {
			return fmt.Errorf("fixed width table: heading %q", lines[0])
		}
		at = append(at, p)
		p += len(h)
	}
	for i, l := range lines {
		x := []rune(l)
		for j, c := range want[i] {
			cell := ""
			if at[j] < len(x) {
				e := len(x)
				if j+1 < len(at) {
					e = min(e, at[j+1])
				}
				cell = string(x[at[j]:e])
			}
			if strings.TrimRight(cell, " ") != strings.TrimRight(string([]rune(c)), " ") {
				return fmt.Errorf("fixed width table: row %d column %d: expected %q, got %q", i, j, c, cell)
			}
		}
	}
	return nil
}

func init() {
	oracle("tsv", tsvOracle)
	oracle("tsv-body", func(in []byte, arg string) (string, error) { return tsvOracle(file1(in), arg) })
	check(&Check{ID: "P16", Level: "exploration",
		Rule:  "run the tsv command on every file of the space, read the table back with an independent reader and compare every cell with the reference parser's events; the fixed width form by the columns of its headings",
		Assum: []string{"the heading row of the first track is repeated at the top of the delimited form, as pinned by the tests (known finding)"},
		Run:   runP16})
	known("P16", Known{"F-TSV-HEADER", "the delimited form starts with an extra heading row of 7 columns", func() error {
		s, err := tsvRun(fileN(1, 96, tempoTrack(), melody(0)))
		if err != nil {
			return err
		}
		if n := len(strings.Split(strings.SplitN(s, "\n", 2)[0], "\t")); n != 14 {
			return fmt.Errorf("two tracks, first row with %d columns", n)
		}
		return nil
	}})
}

func seqCases(r *R, name string, d Domain, n int, arg string) {
	r.Seq("domain "+d.Name+" "+arg, (d.N+n-1)/n, func(w *W, i int) bool { return w.Case(name, file1(d.track(i*n, n)), arg) })
}

// Tables of many rows, with and without deltas, in tracks of different lengths.
func longTables() (out [][]byte) {
	for _, n := range []int{4095, 4096, 4097, 9000} {
		a, b := []byte{}, []byte{}
		for i := 0; i < n; i++ {
			a = append(a, ch(uint32(i%2), 0x90|byte(i%16), byte(i%128), byte(i%7))...)
			b = append(b, meta(0, 1, []byte(fmt.Sprint(i)))...)
		}
		out = append(out, fileN(1, 96, tempoTrack(), cat(a, eot), cat(b, eot)))
	}
	return
}

func runP16(r *R) {
	programCases(r, "tsv|out", "tsv --delimiter ,|out", "tsv --delimiter ;|out", "tsv --tabular|out", "tsv --C4 --delimiter \\t|out", "tsv --delimiter \u266f|out", "tsv|stdout")
	for _, d := range domains() {
		n := 1024
		if len(d.At(d.N-1)) > 1000 {
			n = 1
		}
		seqCases(r, "tsv", d, n, "")
		if d.N > 20000 && !r.Thorough() {
			d = d.stride(7)
		}
		seqCases(r, "tsv", d, 256, "tabular")
	}
	seqCases(r, "tsv", tempoSome, 1024, "")
	scaleCases(r, r.Seq, "tsv", "", 1024)
	rawTextCases(r, r.Seq, "tsv", "")
	rawTextCases(r, r.Seq, "tsv", ",")
	scaleCases(r, r.Seq, "tsv", "tabular", 128)
	r.Seq("long tables", len(longTables()), func(w *W, i int) bool { return w.Case("tsv", longTables()[i], "") })
	c := corpus()
	args := []string{"", "tabular", "stdout", ",", ";", "|", `\t`, " ", ":", "1", "§", "日", "0", "C", "\"", "\n", "\r", "\ufffd", "."}
	r.Seq("corpus x form", len(c)*len(args), func(w *W, i int) bool { return w.Case("tsv", c[i/len(args)].B, args[i%len(args)]) })
	a := alphabet()
	k := len(a)
	r.Seq("all pairs of events", k*k, func(w *W, i int) bool {
		b := cat(a[i/k].B, a[i%k].B)
		return w.Case("tsv-body", b, "") && (!r.Thorough() || w.Case("tsv-body", b, "tabular"))
	})
	if r.Thorough() {
		r.Seq("all triples of events", k*k*k, func(w *W, i int) bool {
			return w.Case("tsv-body", cat(a[i/k/k].B, a[i/k%k].B, a[i%k].B), "")
		})
	}
	// every shape of a table: numbers of events in each of 0..3 tracks
	r.Seq("table shapes", 5*5*5*3, func(w *W, i int) bool {
		t := func(n, c int) []byte {
			b := []byte{}
			for j := 0; j < n; j++ {
				b = append(b, ch(uint32(10*j), 0x90|byte(c), byte(60+j), byte(j+1))...)
			}
			return b
		}
		ts := [][]byte{t(i%5, 0), t(i/5%5, 1), t(i/25%5, 2)}[:1+i/125]
		return w.Case("tsv", fileN(1, 96, ts...), "") && w.Case("tsv", fileN(2, 96, ts...), "tabular")
	})
	// every character in a text against every delimiter
	delims := []rune{}
	for x := rune(1); x < 127; x++ {
		delims = append(delims, x)
	}
	delims = append(delims, 0xa7, 0x2014, 0x65e5, 0x1d11e)
	r.Seq("every delimiter x every character", len(delims), func(w *W, i int) bool {
		d := delims[i]
		b := []byte{}
		for x := 0; x < 256; x++ {
			b = append(b, meta(uint32(x), textTypes[x%9], []byte{byte(x)})...)
			b = append(b, meta(0, textTypes[x%9], []byte{'a', byte(x), 'b'})...)
		}
		for _, s := range []string{string(d), "a" + string(d) + "b", "\"", "a\"b", "\"\"", string(d) + "\"", "\"" + string(d), " x", "x ", "", `\.`, "x\ny", "x\r\ny", "\r", "\n"} {
			b = append(b, meta(0, 1, []byte(s))...)
		}
		arg := string(d)
		if d == '\t' {
			arg = ""
		}
		return w.Case("tsv-body", b, arg)
	})
	texts := trickyTexts()
	r.Seq("texts x form", len(texts)*5, func(w *W, i int) bool {
		return w.Case("tsv-body", cat(meta(0, textTypes[i%9], []byte(texts[i/5])), ch(5, 0x90, 1, 1), eot), []string{"", "tabular", ",", " ", ":"}[i%5])
	})
	r.Sample(tsvCells(&Ev{Tick: 480, Delta: 480, Kind: kController, Status: 0xb0, V: [6]int32{0, 5}, S: "Bank Select (MSB)"}))
}
