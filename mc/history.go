package main

// Independence of history, order, surroundings and concurrency (P19).

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

// Files that would show anything left over from another one: a channel event without a status, an F7
// packet, a program change, notes and note-offs before any event that gives them a context; and files
// (some of them invalid) that leave such a context behind.
var historyDocs = sync.OnceValue(func() []Named {
	many := []byte{}
	for n := byte(0); n < 24; n++ {
		many = append(many, ch(uint32(n%3), 0x90|n%3, 40+n, 64)...)
	}
	large := cat(meta(0, 0x59, []byte{0xf9, 1}))
	for c := byte(0); c < 16; c++ {
		large = cat(large, ch(0, 0xb0|c, 0, 3+c), ch(0, 0xb0|c, 32, 9), ch(0, 0xc0|c, c), meta(0, 3, []byte(strings.Repeat("name ", 60))))
		for n := byte(0); n < 128; n++ {
			large = append(large, ch(0, 0x90|c, n, 1)...)
		}
	}
	large = cat(large, meta(0, 0x59, []byte{0xfa, 0}), sysx(0, 0xf0, append([]byte{0x43}, make([]byte, 5000)...)))
	return []Named{
		{"everything", fileN(0, 480, everything())},
		{"tracks", fileN(1, 480, tempoTrack(), melody(3), melody(4))},
		{"no status", file1(ch(0, 0x3d, 0x40), eot)},
		{"no bank", file1(ch(0, 0xc0, 7), ch(0, 0xc3, 8), ch(0, 0xb0, 32, 1), ch(0, 0xc0, 7), eot)},
		{"sharps", file1(ch(0, 0x80, 0x3d, 1), ch(0, 0x90, 0x3d, 1), ch(0, 0x80, 0x3d, 1), ch(0, 0x80, 0x3f, 1), sysx(0, 0xf7, []byte{0x43, 0xf7}), eot)},
		{"leaves flats, banks and notes", file1(meta(0, 0x59, []byte{0xfb, 0}), ch(0, 0xb0, 0, 9), ch(0, 0xb0, 32, 8), ch(0, 0xb3, 0, 3), ch(0, 0x90, 0x3d, 1), ch(0, 0x90, 0x3f, 1), eot)},
		{"leaves a SysEx message open", file1(ch(0, 0x93, 0x3d, 1), sysx(0, 0xf0, []byte{0x43, 0x12}))},
		{"invalid: leaves everything", file1(meta(0, 0x59, []byte{0xfb, 0}), ch(0, 0xb0, 0, 9), ch(0, 0x90, 0x3d, 1), sysx(0, 0xf0, []byte{0x43, 0x12}), ch(0, 0x90, 0x3d, 0xff))},
		{"invalid: truncated", fileN(1, 96, tempoTrack(), melody(2))[:90]},
		{"smpte", fileN(1, 0xe728, tempoTrack(), melody(3))},
		{"sounding notes", fileN(1, 96, tempoTrack(), cat(many, eot))},
		{"no tracks", hdr(1, 0, 96)},
		{"large: leaves everything", fileN(1, 96, tempoTrack(), cat(large, eot))}, // not in the spaces of all files
	}
})

type proc struct {
	Name string
	Seq  bool // uses variables of the commands package
	Run  func(b []byte) ([]byte, error)
}

func describe(smf *midi.SMF) string {
	f, err := canon(smf)
	if err != nil {
		return "error: " + err.Error()
	}
	var s strings.Builder
	fmt.Fprintf(&s, "%v %v %v\n", f.Format, f.Division, f.Tracks)
	for i, t := range f.Trk {
		for k := range t {
			fmt.Fprintf(&s, "%d %+v %x\n", i, t[k], t[k].Raw)
		}
	}
	return s.String()
}

var procs = sync.OnceValue(func() []proc {
	ps := []proc{{"decode", false, func(b []byte) ([]byte, error) {
		smf, err := decode(b)
		if err != nil {
			return nil, err
		}
		return []byte(describe(smf)), nil
	}}}
	for _, o := range raceOps() {
		ps = append(ps, proc{o.Name, false, func(b []byte) ([]byte, error) {
			smf, err := decode(b)
			if err != nil {
				return nil, err
			}
			return o.Run(smf)
		}})
	}
	ps = append(ps,
		proc{"text", false, func(b []byte) ([]byte, error) {
			smf, err := decode(b)
			if err != nil {
				return nil, err
			}
			s, err := listFresh(smf, "document")
			if err != nil {
				return nil, err
			}
			return assembleText(s)
		}},
		proc{"json", false, func(b []byte) ([]byte, error) {
			smf, err := decode(b)
			if err != nil {
				return nil, err
			}
			s, err := exportJSON(smf)
			if err != nil {
				return nil, err
			}
			return assembleJSON(s)
		}},
		proc{"bad text", false, func(b []byte) ([]byte, error) {
			smf, err := decode(b)
			if err != nil {
				return nil, err
			}
			s, _ := listFresh(smf, "document")
			return assembleText(s + "\n 00  tick:0  delta:0  92  NoteOn channel:99 note:C3 velocity:1\n")
		}})
	for _, a := range [][]string{{"--delimiter", "\t"}, {"--delimiter", ","}, {}, {"--tabular"}, {"stdout"}} {
		ps = append(ps, proc{"tsv " + strings.Join(a, " "), true, func(b []byte) ([]byte, error) {
			s, err := tsvRun(b, a...)
			return []byte(s), err
		}})
	}
	return ps
})

// A step: operation, file and middle C convention ("" or C4).
func runStep(op, doc int, conv string) string {
	if conv != "-" {
		setMiddleC(conv)
	}
	b, err := procs()[op].Run(append([]byte{}, historyDocs()[doc].B...))
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// The result of a step in a process of its own, which has done nothing else.
var baselines sync.Map

func baseline(op, doc int, conv string) (string, error) {
	key := fmt.Sprintf("%d/%d/%s", op, doc, conv)
	if s, ok := baselines.Load(key); ok {
		return s.(string), nil
	}
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(self, "step", key)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("baseline %s: %v", key, err)
	}
	baselines.Store(key, out.String())
	return out.String(), nil
}

func parseStep(s string) (op, doc int, conv string) {
	p := strings.Split(s, "/")
	op, _ = strconv.Atoi(p[0])
	doc, _ = strconv.Atoi(p[1])
	return op, doc, p[2]
}

func stepMain(key string) int {
	op, doc, conv := parseStep(key)
	real.out.WriteString(runStep(op, doc, conv))
	return 0
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := max(0, i-60)
	return fmt.Sprintf("at byte %d: expected %q, got %q", i, trim(a[at:], 160), trim(b[at:], 160))
}

func stepName(s string) string {
	op, doc, conv := parseStep(s)
	return fmt.Sprintf("%s of '%s' %s", procs()[op].Name, historyDocs()[doc].Name, conv)
}

// arg: the steps, separated by spaces. Every step has to give what it gives in a process of its own.
func historyOracle(in []byte, arg string) (string, error) {
	steps := strings.Fields(arg)
	for i, s := range steps {
		op, doc, conv := parseStep(s)
		want, err := baseline(op, doc, strings.Replace(conv, "-", "", 1))
		if err != nil {
			return "no baseline: " + err.Error(), nil
		}
		if got := runStep(op, doc, conv); got != want {
			before := []string{}
			for _, b := range steps[:i] {
				before = append(before, stepName(b))
			}
			return "", fmt.Errorf("%s after [%s] differs from the result in a new process: %s", stepName(s), strings.Join(before, "; "), firstDiff(want, got))
		}
	}
	return fmt.Sprintf("%d steps", len(steps)), nil
}

// Every operation on the given file twice, with the operations on other files between them.
func historyInputOracle(in []byte, arg string) (string, error) {
	ops := procs()
	first := map[int]string{}
	run := func(k int) string {
		b, err := ops[k].Run(append([]byte{}, in...))
		if err != nil {
			return "error: " + err.Error()
		}
		return string(b)
	}
	for k, o := range ops {
		if !o.Seq {
			first[k] = run(k)
		}
	}
	for _, d := range []int{2, 3, 4} {
		for k, o := range ops {
			if o.Seq {
				continue
			}
			want, err := baseline(k, d, "")
			if err != nil {
				return "no baseline: " + err.Error(), nil
			}
			if got := runStep(k, d, "-"); got != want {
				return "", fmt.Errorf("%s of '%s' after the operations on this file differs from the result in a new process: %s", o.Name, historyDocs()[d].Name, firstDiff(want, got))
			}
		}
	}
	for k, o := range ops {
		if o.Seq {
			continue
		}
		if got := run(k); got != first[k] {
			return "", fmt.Errorf("%s the second time: %s", o.Name, firstDiff(first[k], got))
		}
	}
	return fmt.Sprint(strings.HasPrefix(first[0], "error")), nil
}

// arg: document index, then indices of read-only operations on one decoded file.
func sharedFileOracle(in []byte, arg string) (string, error) {
	idx := []int{}
	for _, s := range strings.Fields(arg) {
		n, _ := strconv.Atoi(s)
		idx = append(idx, n)
	}
	doc := historyDocs()[idx[0]]
	smf, err := decode(doc.B)
	if err != nil {
		return "rejected", nil
	}
	before := describe(smf)
	names := []string{}
	for _, k := range idx[1:] {
		o := raceOps()[k]
		fresh, err := decode(doc.B)
		if err != nil {
			return "", fmt.Errorf("decoding '%s' again: %v", doc.Name, err)
		}
		want, e1 := o.Run(fresh)
		got, e2 := o.Run(smf)
		if !bytes.Equal(want, got) || fmt.Sprint(e1) != fmt.Sprint(e2) {
			return "", fmt.Errorf("%s of '%s' after %v on the same decoded file: %v %v %s", o.Name, doc.Name, names, e1, e2, firstDiff(string(want), string(got)))
		}
		names = append(names, o.Name)
		if after := describe(smf); o.ReadOnly && after != before {
			return "", fmt.Errorf("%v change the decoded file '%s': %s", names, doc.Name, firstDiff(before, after))
		}
	}
	return fmt.Sprintf("%d operations", len(names)), nil
}

// One decoder, disassembler, exporter and assembler for a sequence of documents (arg: indices).
func reuseOracle(in []byte, arg string) (string, error) {
	d := midifile.NewDecoder()
	dis, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	exp, err := export.NewExport()
	if err != nil {
		return "", err
	}
	ta, ja := assemble.NewTextAssembler(), assemble.NewJSONAssembler()
	var joined, encoded bytes.Buffer
	enc := midifile.NewEncoder(&encoded)
	result := func(b []byte, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return string(b)
	}
	// the results so far, which nothing that is done afterwards may change
	type heldResult struct {
		what, was string
		now       func() string
	}
	held := []heldResult{}
	hold := func(what string, now func() string) {
		held = append(held, heldResult{what, now(), now})
	}
	for i, s := range append(strings.Fields(arg), "end") {
		for _, h := range held {
			if is := h.now(); is != h.was {
				return "", fmt.Errorf("%s changed when other documents were processed (%s): %s", h.what, arg, firstDiff(h.was, is))
			}
		}
		if s == "end" {
			break
		}
		n, _ := strconv.Atoi(s)
		doc := historyDocs()[n]
		fail := func(what, want, got string) (string, error) {
			return "", fmt.Errorf("'%s' with a %s that was used for %d other documents (%s): %s", doc.Name, what, i, arg, firstDiff(want, got))
		}
		fresh, e1 := decode(doc.B)
		smf, e2 := d.Decode(bytes.NewReader(doc.B))
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			return fail("decoder", fmt.Sprint(e1), fmt.Sprint(e2))
		}
		if e1 != nil {
			continue
		}
		if a, b := describe(fresh), describe(smf); a != b {
			return fail("decoder", a, b)
		}
		hold("the decoded '"+doc.Name+"'", func() string { return describe(smf) })
		hold("the listing of '"+doc.Name+"'", func() string { s, err := listFresh(smf, "document"); return result([]byte(s), err) })
		text, e1 := listFresh(fresh, "document")
		var w bytes.Buffer
		e2 = dis.Print(fresh, "document", &w)
		if a, b := result([]byte(text), e1), result(w.Bytes(), e2); a != b {
			return fail("disassembler", a, b)
		}
		js, e1 := exportJSON(fresh)
		w.Reset()
		e2 = exp.Export(fresh, &w)
		if a, b := result(js, e1), result(w.Bytes(), e2); a != b {
			return fail("JSON exporter", a, b)
		}
		b, e1 := encode(fresh)
		e2 = enc.Encode(*fresh)
		joined.Write(b)
		hold("the encoded '"+doc.Name+"'", func() string { return string(b) })
		moved, e3 := decode(doc.B)
		if e3 == nil {
			op := transpose.Transpose{}
			t, err := op.Execute(moved, 3)
			hold("the transposed '"+doc.Name+"'", func() string { return result(t, err) })
		}
		if a, b := result(joined.Bytes(), e1), result(encoded.Bytes(), e2); a != b {
			return fail("encoder", a, b)
		}
		for _, src := range []string{text, text + "\n  zzz"} {
			b, err := ta.Assemble(strings.NewReader(src))
			if x, y := result(assembleText(src)), result(b, err); x != y {
				return fail("text assembler", x, y)
			}
			hold("the file assembled from the text of '"+doc.Name+"'", func() string { return result(b, err) })
		}
		for _, src := range []string{string(js), string(js[:len(js)/2])} {
			b, err := ja.Assemble(strings.NewReader(src))
			if x, y := result(assembleJSON([]byte(src))), result(b, err); x != y {
				return fail("JSON assembler", x, y)
			}
			hold("the file assembled from the JSON of '"+doc.Name+"'", func() string { return result(b, err) })
		}
	}
	return "same", nil
}

// The operation gives the same bytes every time (map iteration order and other hidden choices).
func repeatOracle(in []byte, arg string) (string, error) {
	var op, doc, n int
	fmt.Sscan(arg, &op, &doc, &n)
	want := runStep(op, doc, "-")
	for i := 1; i < n; i++ {
		if got := runStep(op, doc, "-"); got != want {
			return "", fmt.Errorf("%s gives different results for the same file: %s", stepName(fmt.Sprintf("%d/%d/", op, doc)), firstDiff(want, got))
		}
	}
	return "same", nil
}

// ---- tracks

func isolationTracks() []Named {
	return []Named{
		{"sharps", cat(ch(0, 0x80, 0x3d, 1), ch(0, 0x90, 0x3d, 1), ch(5, 0x3d, 0), ch(0, 0x90, 0x3f, 1), eot)},
		{"flats", cat(meta(0, 0x59, []byte{0xfb, 0}), ch(0, 0x90, 0x3d, 1), ch(0, 0x91, 0x3f, 1), eot)},
		{"minor", cat(ch(0, 0x90, 0x3d, 1), meta(0, 0x59, []byte{0x00, 1}), ch(3, 0x80, 0x3d, 1), eot)},
		{"banks", cat(ch(0, 0xb0, 0, 9), ch(0, 0xb0, 32, 8), ch(0, 0xb3, 32, 3), ch(0, 0xc0, 7), eot)},
		{"no banks", cat(ch(0, 0xc0, 7), ch(0, 0xc3, 7), eot)},
		{"open", cat(sysx(0, 0xf0, []byte{0x43, 0x12}), sysx(0, 0xf7, []byte{0x12}))},
		{"escape", cat(sysx(0, 0xf7, []byte{0x12, 0xf7}), sysx(0, 0xf0, []byte{0x43, 0xf7}), eot)},
		{"late", cat(meta(5, 0x51, []byte{7, 0xa1, 0x20}), ch(0xfffffff, 0x90, 1, 1), ch(0xfffffff, 1, 0), eot)},
		{"nothing", nil},
		{"open end", ch(0, 0x90, 0x3d, 1)},
	}
}

// arg: track indices, then the positions of foreign chunks. Track by track the events have to be those
// of the track as the only track of a file.
func isolationOracle(in []byte, arg string) (string, error) {
	a, b, _ := strings.Cut(arg, "|")
	foreign := map[string]bool{}
	for _, s := range strings.Fields(b) {
		foreign[s] = true
	}
	ts := isolationTracks()
	chunks := [][]byte{}
	idx := []int{}
	for i, s := range strings.Fields(a) {
		n, _ := strconv.Atoi(s)
		if foreign[strconv.Itoa(i)] {
			chunks = append(chunks, chunkOf("JUNK", meta(0, 0x59, []byte{0xfb, 0})))
		}
		chunks = append(chunks, mtrk(ts[n].B))
		idx = append(idx, n)
	}
	if foreign[strconv.Itoa(len(idx))] {
		chunks = append(chunks, chunkOf("XFIH", []byte{0x90, 0x3d, 0x40}))
	}
	smf, err := decode(cat(hdr(1, len(idx), 96), cat(chunks...)))
	if err != nil {
		return "", fmt.Errorf("tracks %s: %v", arg, err)
	}
	if len(smf.Tracks) != len(idx) {
		return "", fmt.Errorf("%d tracks decoded as %d", len(idx), len(smf.Tracks))
	}
	for i, n := range idx {
		alone, err := decode(fileN(1, 96, ts[n].B))
		if err != nil {
			return "", fmt.Errorf("track '%s' alone: %v", ts[n].Name, err)
		}
		want, got := *alone.Tracks[0], *smf.Tracks[i]
		if int(got.TrackNumber) != i {
			return "", fmt.Errorf("track %d is numbered %d", i, got.TrackNumber)
		}
		got.TrackNumber = want.TrackNumber
		x, y := &midi.SMF{MThd: alone.MThd, Tracks: []*midi.MTrk{&want}}, &midi.SMF{MThd: alone.MThd, Tracks: []*midi.MTrk{&got}}
		if a, b := describe(x), describe(y); a != b {
			return "", fmt.Errorf("track '%s' as track %d of [%s]: %s", ts[n].Name, i, arg, firstDiff(a, b))
		}
		// the listing of the track, apart from its number
		p, e1 := list(&want, "MTrk")
		q, e2 := list(&got, "MTrk")
		if e1 != nil || e2 != nil {
			return "", fmt.Errorf("listing: %v %v", e1, e2)
		}
		_, p, _ = strings.Cut(strings.TrimLeft(p, "\n"), "\n")
		_, q, _ = strings.Cut(strings.TrimLeft(q, "\n"), "\n")
		if p != q {
			return "", fmt.Errorf("listing of track '%s' as track %d of [%s]: %s", ts[n].Name, i, arg, firstDiff(p, q))
		}
	}
	return fmt.Sprintf("%d tracks", len(idx)), nil
}

func init() {
	oracle("history", historyOracle)
	oracle("history-input", historyInputOracle)
	oracle("shared-file", sharedFileOracle)
	oracle("reuse", reuseOracle)
	oracle("repeat", repeatOracle)
	oracle("isolation", isolationOracle)
	check(&Check{ID: "P19", Level: "model_checking",
		Rule:  "all sequences of operations (operation x file x middle C convention) up to the bound in one process, each result against that of a process which does nothing else; all sequences of operations on one decoded file, with its content before and after; all sequences of documents through one decoder, disassembler, exporter, encoder and assembler; all tuples of tracks with foreign chunks against the tracks alone; every pair of operations concurrently under a happens-before monitor (race detector)",
		Assum: []string{"the concurrent pairs are monitored for data races (happens-before), not enumerated schedule by schedule", "map iteration orders are repeated, not enumerated"},
		Run:   runP19})
}

func runP19(r *R) {
	docs, ops := historyDocs(), procs()
	big := len(docs) - 1
	docs = docs[:big]
	conv := func(c string) func(i, n int) string {
		return func(i, n int) string { return fmt.Sprintf("%d/%d/%s", i/len(docs), i%len(docs), c) }
	}
	n := 0
	for _, o := range ops {
		if !o.Seq {
			n += len(docs)
		}
	}
	total := len(ops) * len(docs)
	step := func(i int) string { return conv("-")(i, 0) }
	setMiddleC("")
	r.Par("results of new processes", n, func(w *W, i int) bool { return w.Case("history", nil, step(i)) })
	r.states.Add(int64(n))
	r.Par("pairs of operations", n*n, func(w *W, i int) bool {
		return w.Case("history", nil, step(i%n)+" "+step(i/n))
	})
	r.transitions.Add(int64(n * n))
	r.traces.Add(int64(n * n))
	// triples: all files, and the operations decode, list, export, notes, transpose, text
	sel := []int{}
	for i := 0; i < n; i++ {
		switch ops[i/len(docs)].Name {
		case "decode":
			sel = append(sel, i)
		case "list", "export", "notes", "transpose", "text":
			if r.Thorough() || i%len(docs) == 0 || i%len(docs) == 5 {
				sel = append(sel, i)
			}
		}
	}
	m := len(sel)
	r.Par("triples of operations", m*m*m, func(w *W, i int) bool {
		return w.Case("history", nil, step(sel[i%m])+" "+step(sel[i/m%m])+" "+step(sel[i/m/m]))
	})
	r.transitions.Add(int64(m * m * m))
	r.traces.Add(int64(m * m * m))
	// the tsv command, and other operations around it
	tv := []int{0, 1, 5, 8, len(docs), len(docs) + 5}
	for i := n; i < total; i++ {
		tv = append(tv, i)
	}
	r.Seq("pairs with the tsv command", len(tv)*len(tv), func(w *W, i int) bool {
		return w.Case("history", nil, step(tv[i%len(tv)])+" "+step(tv[i/len(tv)]))
	})
	// after a large file
	after := []int{2, 3, 4}
	lo := []int{}
	for k, o := range ops {
		if !o.Seq {
			lo = append(lo, k)
		}
	}
	r.Par("every operation after each operation on a large file", len(lo)*len(lo)*len(after), func(w *W, i int) bool {
		a, b, d := lo[i%len(lo)], lo[i/len(lo)%len(lo)], after[i/len(lo)/len(lo)]
		return w.Case("history", nil, fmt.Sprintf("%d/%d/- %d/%d/-", a, big, b, d))
	})
	// middle C conventions
	cs := []string{}
	for _, c := range []string{"", "C4"} {
		for _, d := range []int{1, 5} {
			for k, o := range ops {
				if o.Seq && !r.Thorough() {
					continue
				}
				cs = append(cs, fmt.Sprintf("%d/%d/%s", k, d, c))
			}
		}
	}
	r.Seq("pairs of operations with middle C conventions", len(cs)*len(cs), func(w *W, i int) bool {
		return w.Case("history", nil, cs[i%len(cs)]+" "+cs[i/len(cs)])
	})
	r.traces.Add(int64(len(cs) * len(cs)))
	setMiddleC("")
	e := extremes()
	last := e
	if !r.Thorough() { // events that change the state of a decoder
		last = [][]byte{{0x90, 61, 1}, {0x80, 61, 1}, {0xb0, 0, 9}, {0xb0, 32, 9}, {0xc0, 1}, {61, 1}, mevt(0x59, 0xfb, 0), mevt(0x59, 2, 1), mevt(0x51, 1, 2, 3), sevt(0xf0, 0x43, 1), sevt(0xf7, 1), mevt(1, 'x'), {0x90, 61, 0x80}}
	}
	r.Par("every operation after the operations on every pair of events at their limits", len(e)*len(last), func(w *W, i int) bool {
		return w.Case("history-input", file1([]byte{0}, e[i/len(last)], []byte{1}, last[i%len(last)], eot), "")
	})
	r.Par("pairs of tracks with an event at its limits", len(e)*len(e), func(w *W, i int) bool {
		return w.Case("decode", fileN(1, 96, cat([]byte{0}, e[i/len(e)]), cat([]byte{0}, e[i%len(e)], ch(0, 0x80, 61, 1), ch(0, 0xc0, 1))), "") && w.Case("decode", fileN(2, 96, cat([]byte{1}, e[i/len(e)], eot), cat([]byte{0}, e[i%len(e)], sysx(0, 0xf7, []byte{1}))), "")
	})
	// one decoded file
	ro := len(raceOps())
	depth := ifelse(r.Thorough(), 4, 3)
	k := words(ro-1, depth)
	r.Par("operation sequences on one decoded file", k*len(docs), func(w *W, i int) bool {
		s := fmt.Sprint(i % len(docs))
		ws := word(ro-1, i/len(docs), nil)
		for _, x := range ws {
			s += fmt.Sprintf(" %d", x)
		}
		return w.Case("shared-file", nil, s) && w.Case("shared-file", nil, s+fmt.Sprint(" ", ro-1))
	})
	r.transitions.Add(int64(k * len(docs)))
	r.states.Add(int64(len(docs)))
	r.Par("document sequences with one object", len(docs)*len(docs)*len(docs), func(w *W, i int) bool {
		d := len(docs)
		return w.Case("reuse", nil, fmt.Sprint(i%d, " ", i/d%d, " ", i/d/d))
	})
	r.Par("repetitions", n, func(w *W, i int) bool {
		return w.Case("repeat", nil, fmt.Sprint(i/len(docs), " ", i%len(docs), " ", ifelse(r.Thorough(), 200, 40)))
	})
	ts := len(isolationTracks())
	tn := words(ts, 3)
	r.Par("track tuples and foreign chunks", tn*16, func(w *W, i int) bool {
		a, b := "", ""
		ws := word(ts, i/16, nil)
		for _, x := range ws {
			a += fmt.Sprintf("%d ", x)
		}
		for k := 0; k < 4; k++ {
			if i>>k&1 == 1 {
				if k > len(ws) {
					return true
				}
				b += fmt.Sprintf(" %d", k)
			}
		}
		return w.Case("isolation", nil, a+"|"+b)
	})
	rp := len(raceProcs(raceDocs()))
	raceRun(r, "race-ops", rp)
	raceRun(r, "race-first", len(racePairs(rp)))
	raceRun(r, "race-shared", len(raceDocs()))
	r.Sample(map[string]any{"history": "list of 'leaves flats, banks and notes'; decode of 'sharps'", "oracle": "each result equals that of a new process"})
}
