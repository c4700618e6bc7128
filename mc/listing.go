package main

// The text listing (P15), the header in all its forms (P03) and custom templates (P24).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
)

func listFresh(smf any, tmpl string) (string, error) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	if err := d.Print(smf, tmpl, &b); err != nil {
		return "", err
	}
	return b.String(), nil
}

func exportJSON(smf *midi.SMF) ([]byte, error) {
	x, err := export.NewExport()
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if err := x.Export(smf, &b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func hexs(b []byte) string { return strings.TrimSpace(strings.ToUpper(fmt.Sprintf("% x", b))) }

func collapse(s string) string { return strings.Join(strings.Fields(s), " ") }

// What a listing line has to show: the bytes, the part between them and the tail, and the tail exactly.
type line struct {
	raw  []byte
	mid  string // whitespace does not matter
	tail string // exact
}

func headerLine(f *File, raw []byte) line {
	div := fmt.Sprintf("metrical time:%d ppqn", f.Division)
	if f.Division >= 0x8000 {
		div = fmt.Sprintf("SMPTE:%d fps,%d sub-frames", map[uint16]int{0xe8: 24, 0xe7: 25, 0xe3: 29, 0xe2: 30}[f.Division>>8], f.Division&0xff)
	}
	return line{raw, fmt.Sprintf("MThd length:6, format:%d, tracks:%d, %s", f.Format, f.Tracks, div), ""}
}

func fieldsOf(e *Ev) (mid, tail string) {
	v := e.V
	switch e.Kind {
	case kNoteOn, kNoteOff:
		return "", fmt.Sprintf("note:%s, velocity:%d", e.S, v[1])
	case kPolyphonicPressure, kChannelPressure:
		return "", fmt.Sprintf("pressure:%d", v[0])
	case kController:
		return "", fmt.Sprintf("%d/%s, value:%d", v[0], e.S, v[1])
	case kProgramChange:
		return "", fmt.Sprintf("bank:%d, program:%d", v[0], v[1])
	case kPitchBend:
		return "", fmt.Sprintf("bend:%d", v[0])
	case kSequenceNumber, kMIDIChannelPrefix, kMIDIPort:
		return "", fmt.Sprint(v[0])
	case kTempo:
		return "", fmt.Sprintf("tempo:%d", v[0])
	case kSMPTEOffset:
		return "", fmt.Sprintf("%d %d %d %d %d %d", v[0], v[1], v[2], v[3], v[4], v[5])
	case kTimeSignature:
		return "", fmt.Sprintf("%d/%d, %d ticks per click, %d/32 per quarter", v[0], v[1], v[2], v[3])
	case kKeySignature:
		return "", e.S
	case kSequencerSpecific:
		return "", name2(e.S) + ", " + hexs(e.Data[v[0]:])
	case kSysExMessage:
		return "", name2(e.S) + ", " + hexs(e.Data[1:])
	case kSysExContinuation, kSysExEscape:
		return "", hexs(e.Data)
	case kEndOfTrack:
		return "", ""
	default:
		return "", e.S
	}
}

func name2(s string) string { _, n, _ := strings.Cut(s, "|"); return n }

func eventLine(e *Ev) line {
	code := fmt.Sprintf("%02X", e.Status)
	if e.Status == 0xff {
		code = fmt.Sprintf("%02X", metaType[e.Kind])
	}
	mid := fmt.Sprintf("tick:%d delta:%d %s %s", e.Tick, e.Delta, code, e.Kind)
	if e.Status < 0xf0 {
		mid += fmt.Sprintf(" channel:%d", e.Ch)
	}
	_, tail := fieldsOf(e)
	return line{e.Raw, mid, tail}
}

func (l line) match(s string) error {
	t := l.tail
	if t != "" && !strings.HasSuffix(s, " "+t) {
		return fmt.Errorf("expected a line that ends in %q, got %q", trim(t, 200), trim(s, 400))
	}
	head := collapse(strings.TrimSuffix(s, t))
	mid := collapse(l.mid)
	if !strings.HasSuffix(head, " "+mid) {
		return fmt.Errorf("expected %q in %q", mid, trim(s, 400))
	}
	got := strings.TrimSuffix(head, " "+mid)
	want := hexs(l.raw)
	if len(l.raw) > 100 {
		want = hexs(l.raw[:100]) + " ..."
	}
	if got == want {
		return nil
	}
	if p, ok := strings.CutSuffix(got, "…"); ok && len(strings.TrimSpace(p)) >= 14 && strings.HasPrefix(want, strings.TrimSpace(p)) {
		return nil
	}
	return fmt.Errorf("expected the bytes %q in %q", want, trim(s, 400))
}

func nonblank(s string) []string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

func multiline(f *File) bool {
	for _, t := range f.Trk {
		for i := range t {
			if t[i].Kind >= kText && t[i].Kind <= kDeviceName && strings.Contains(t[i].S, "\n") {
				return true
			}
		}
	}
	return false
}

// Expected lines: header, tracks and events.
func listLines(f *File, in []byte) (hd line, trk [][]line) {
	hd = headerLine(f, in[:14])
	// track chunks
	p := 14
	for i := 0; i < len(f.Trk); {
		n := int(in[p+4])<<24 | int(in[p+5])<<16 | int(in[p+6])<<8 | int(in[p+7])
		if string(in[p:p+4]) == "MTrk" {
			ls := []line{{in[p : p+8+n], fmt.Sprintf("MTrk %d length:%d", i, n), ""}}
			for k := range f.Trk[i] {
				ls = append(ls, eventLine(&f.Trk[i][k]))
			}
			trk = append(trk, ls)
			i++
		}
		p += 8 + n
	}
	return
}

func matchLines(want []line, got []string, anyName func(i int) bool) error {
	for i := 0; i < len(want) && i < len(got); i++ {
		if anyName != nil && anyName(i) {
			continue
		}
		if err := want[i].match(got[i]); err != nil {
			return fmt.Errorf("line %d: %v", i+1, err)
		}
	}
	if len(want) != len(got) {
		return fmt.Errorf("expected %d lines, got %d", len(want), len(got))
	}
	return nil
}

func listingOracle(in []byte, arg string) (string, error) {
	setMiddleC(arg)
	c, smf, f, err := decodeCheck(in)
	if err != nil || smf == nil {
		return "decode " + c, err
	}
	if multiline(f) {
		return "multi-line text", nil
	}
	doc, err := list(smf, "document")
	if err != nil {
		return "", fmt.Errorf("listing failed: %v", err)
	}
	hd, trk := listLines(f, in)
	all := []line{hd}
	skip := map[int]bool{}
	for t, ls := range trk {
		for k := range f.Trk[t] {
			if f.Trk[t][k].AnyName {
				skip[len(all)+1+k] = true
			}
		}
		all = append(all, ls...)
	}
	if err := matchLines(all, nonblank(doc), func(i int) bool { return skip[i] }); err != nil {
		return "", err
	}
	// split
	s, err := list(smf.MThd, "MThd")
	if err != nil {
		return "", err
	}
	if err := matchLines([]line{hd}, nonblank(s), nil); err != nil {
		return "", fmt.Errorf("split, header: %v", err)
	}
	lines := nonblank(s)
	for i, t := range smf.Tracks {
		s, err := list(t, "MTrk")
		if err != nil {
			return "", err
		}
		lines = append(lines, nonblank(s)...)
		_ = i
	}
	if strings.Join(lines, "\n") != strings.Join(nonblank(doc), "\n") {
		return "", fmt.Errorf("the split listing differs from the listing")
	}
	return fmt.Sprintf("%d tracks", len(trk)), nil
}

func init() {
	oracle("listing", listingOracle)
	oracle("listing-body", func(in []byte, arg string) (string, error) { return listingOracle(file1(in), arg) })
	oracle("header", headerOracle)

	check(&Check{ID: "P03", Level: "exploration",
		Rule: "every time division x format x track count and every single-field corruption of the header: decoded fields, re-encoded bytes, listing line and JSON header against the reference",
		Run:  runP03})
	check(&Check{ID: "P15", Level: "exploration",
		Rule:  "disassemble every file of the space and match every line against one generated from the reference parser's events (bytes or a marked abbreviation of them, tick, delta, status or type, kind, every field)",
		Assum: []string{"column padding is not part of the property", "text that contains line breaks is outside the space"},
		Run:   runP15})
}

func headerOracle(in []byte, arg string) (string, error) {
	c, smf, f, err := decodeCheck(in)
	if err != nil || smf == nil {
		return c, err
	}
	if !bytes.Equal(smf.MThd.Bytes, in[:14]) {
		return "", fmt.Errorf("header bytes: expected % X, got % X", in[:14], []byte(smf.MThd.Bytes))
	}
	b, err := encode(smf)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(b[:14], in[:14]) {
		return "", fmt.Errorf("encoded header: expected % X, got % X", in[:14], b[:14])
	}
	// a header made from its format, track count and division
	m := midi.MakeMThd(f.Format, f.Tracks, f.Division)
	d := *smf.MThd
	d.Bytes, m.Bytes = nil, nil
	if fmt.Sprintf("%+v", d) != fmt.Sprintf("%+v", m) {
		return "", fmt.Errorf("MakeMThd(%d,%d,%04X): expected %+v, got %+v", f.Format, f.Tracks, f.Division, d, m)
	}
	if b, err := m.MarshalBinary(); err != nil || !bytes.Equal(b, in[:14]) {
		return "", fmt.Errorf("MakeMThd(%d,%d,%04X) is encoded as % X (%v)", f.Format, f.Tracks, f.Division, b, err)
	}
	if arg == "decode" {
		return c, nil
	}
	s, err := list(smf.MThd, "MThd")
	if err != nil {
		return "", err
	}
	if err := matchLines([]line{headerLine(f, in[:14])}, nonblank(s), nil); err != nil {
		return "", err
	}
	j, err := exportJSON(smf)
	if err != nil {
		return "", err
	}
	var x struct {
		Header map[string]any `json:"header"`
	}
	if err := json.Unmarshal(j, &x); err != nil {
		return "", err
	}
	want := map[string]any{"Tag": "MThd", "Length": 6.0, "Format": float64(f.Format), "Tracks": float64(f.Tracks), "Division": float64(f.Division)}
	if f.Division >= 0x8000 {
		want["SMPTETimeCode"], want["FPS"], want["SubFrames"], want["DropFrame"] = true, float64(map[uint16]int{0xe8: 24, 0xe7: 25, 0xe3: 29, 0xe2: 30}[f.Division>>8]), float64(f.Division&0xff), f.Division>>8 == 0xe3
	} else {
		want["SMPTETimeCode"], want["PPQN"] = false, float64(f.Division)
	}
	for k, v := range want {
		if x.Header[k] != v {
			return "", fmt.Errorf("JSON header: expected %s %v, got %v", k, v, x.Header[k])
		}
	}
	return fmt.Sprintf("%s format %d smpte %v", c, f.Format, f.Division >= 0x8000), nil
}

func runP03(r *R) {
	tracks := func(n int) []byte {
		b := []byte{}
		for i := 0; i < n; i++ {
			b = append(b, mtrk(eot)...)
		}
		return b
	}
	r.Par("division x format, 1 track", 65536*3, func(w *W, i int) bool {
		return w.Case("header", cat(hdr(i>>16, 1, i&0xffff), tracks(1)), "")
	})
	for _, n := range []int{0, 2, 3, 4} {
		r.Par(fmt.Sprintf("division x format, %d tracks", n), 65536*3, func(w *W, i int) bool {
			return w.Case("header", cat(hdr(i>>16, n, i&0xffff), tracks(n)), "decode")
		})
	}
	r.Par("every format", 65536, func(w *W, i int) bool { return w.Case("header", cat(hdr(i, 1, 96), tracks(1)), "") })
	r.Par("every track count with 0..3 tracks", 65536, func(w *W, i int) bool {
		return w.Case("header", cat(hdr(1, i, 480), tracks(i%4)), "") && w.Case("header", cat(hdr(1, i, 480), tracks(1)), "")
	})
	r.Par("matching track counts", 300, func(w *W, i int) bool { return w.Case("header", cat(hdr(1, i, 480), tracks(i)), "") })
	r.Par("large track counts", 4, func(w *W, i int) bool {
		n := []int{1000, 4096, 32768, 65535}[i]
		return w.Case("header", cat(hdr(1, n, 480), tracks(n)), "decode")
	})
	r.Par("every header length", 4096, func(w *W, i int) bool {
		// the header padded or cut to the declared length
		h := hdr(1, 1, 480)
		h[6], h[7] = byte(i>>8), byte(i)
		body := make([]byte, i)
		copy(body, h[8:])
		return w.Case("header", cat(h[:8], body, tracks(1)), "") && w.Case("header", cat(h, tracks(1)), "")
	})
	r.Par("every value of every header byte", 14*256, func(w *W, i int) bool {
		h := hdr(1, 1, 480)
		h[i>>8] = byte(i)
		return w.Case("header", cat(h, tracks(1)), "")
	})
}

func runP15(r *R) {
	programCases(r, programLines("disassemble|stdout", "--verbose|stdout", "disassemble|out", "--debug|out", "disassemble --split|default", "disassemble --split|out", "--split|default")...)
	for _, d := range domains() {
		if d.N > 100000 && !r.Thorough() {
			d = d.stride(7)
		}
		sweep(r, "listing", d, 256)
	}
	sweep(r, "listing", tempoSome, 256)
	corpusCases(r, "listing")
	scaleCases(r, r.Par, "listing", "", 1024)
	rawTextCases(r, r.Par, "listing", "")
	a := alphabet()
	seqs(r, "listing-body", a, 2, "")
	seqs(r, "listing-body", a, 2, "C4")
	if r.Thorough() {
		seqs(r, "listing-body", a, 3, "")
	}
	// bytes around the abbreviation limits, for every delta size
	r.Par("event sizes around the abbreviation limit", 4*9*40, func(w *W, i int) bool {
		d := []uint32{1, 200, 20000, 3000000}[i%4]
		return w.Case("listing-body", cat(meta(d, textTypes[i/4%9], fill(i/36)), sysx(d, 0xf7, fill(i/36)), meta(d, 0x7f, append([]byte{0x43}, fill(i/36)...))), "")
	})
	// ticks with up to 12 digits and large deltas
	r.Par("tick and delta magnitudes", 28*40, func(w *W, i int) bool {
		b := []byte{}
		for k := 0; k < 1+i/28*4; k++ {
			b = append(b, ch(1<<(i%28), 0x90, 60, 1)...)
			b = append(b, ch(1<<28-1, 0x80, 60, 1)...)
		}
		return w.Case("listing-body", b, "")
	})
	texts := trickyTexts()
	r.Par("texts", len(texts)*9, func(w *W, i int) bool {
		return w.Case("listing-body", cat(meta(0, textTypes[i%9], []byte(texts[i/9])), eot), "")
	})
	r.Par("formats, divisions and tracks", 3*8*5, func(w *W, i int) bool {
		ts := [][]byte{tempoTrack(), melody(0), everything(), melody(15), nil}[:i%5]
		return w.Case("listing", fileN(i/5%3, []int{1, 96, 480, 32767, 0xe728, 0xe804, 0xe350, 0xe2ff}[i/15], ts...), "")
	})
}

// Texts that look like other parts of a listing, contain metacharacters, or are not ASCII.
func trickyTexts() []string {
	ts := []string{"a", "Z", "0", "x y", "x  y", "MThd", "MTrk", "MThd length:6", "MTrk 0 length:4", "tick:0", "delta:5", "delta:7 FF 00", "%%", "%% comment", "a %% b", "note:C4", "velocity:7",
		"channel:3", "{{.Tag}}", "{{template \"x\"}}", "<b>&amp;</b>", "\"quoted\"", "'single'", "back\\slash", "\\n", "a,b", "a;b", "a|b", "tab\tinside", "comma,", ",", ":", "…", "é", "日本語", "♯♭", "𝄞 clef", "F♯ major", "C major",
		"#", "//", "/* */", "null", "true", "{}", "[]", "100%", "%d %s %v", "$HOME", "`id`", "00 FF 2F 00", "format:1", "metrical time:96 ppqn", "bar 1", "value:9", "a=b", "?", "*", "~!@#$^&*()_+-=[]{};':,./<>?", "(c) 2024", strings.Repeat("long ", 50) + "end", "\u00a0x\u00a0", "ſ", "K", "İ"}
	for k := kSequenceNumber; k < nKinds; k++ {
		ts = append(ts, k.String(), "x "+k.String()+" y", strings.ToLower(k.String()), "delta:3 "+k.String()+" z")
	}
	return ts
}
