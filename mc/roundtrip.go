package main

// Round trips: binary (P04), text (P05) and JSON (P06).

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
)

// The content of a file: from the reference parser, or the decoded file where the reference has no opinion.
func content(in []byte) (*midi.SMF, *File, error) {
	smf, err := decode(in)
	if err != nil {
		return nil, nil, nil
	}
	if f, v, _ := refFile(in); v == Accept {
		return smf, f, nil
	}
	f, err := canon(smf)
	if err != nil {
		return nil, nil, err
	}
	return smf, f, nil
}

// Parses generated bytes: the reference has to accept them and the decoder has to agree.
func wellformed(b []byte) (*File, error) {
	smf, err := decode(b)
	if err != nil {
		return nil, fmt.Errorf("the result does not decode: %v (% X)", err, clip(b))
	}
	got, err := canon(smf)
	if err != nil {
		return nil, err
	}
	f, v, why := refFile(b)
	switch v {
	case Reject:
		return nil, fmt.Errorf("the result is not a well-formed MIDI file (%s): % X", why, clip(b))
	case Accept:
		return f, diffFile(f, got, cmpAll)
	}
	return got, nil
}

func binaryOracle(in []byte, arg string) (string, error) {
	smf, want, err := content(in)
	if err != nil {
		return "", err
	}
	if smf == nil {
		return "rejected", nil
	}
	b, err := encode(smf)
	if err != nil {
		return "", fmt.Errorf("encoding failed: %v", err)
	}
	if !bytes.Equal(b[:14], in[:14]) {
		return "", fmt.Errorf("encoded header: expected % X, got % X", in[:14], b[:14])
	}
	got, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if err := diffFile(want, got, cmpContent); err != nil {
		return "", err
	}
	smf2, err := decode(b)
	if err != nil {
		return "", err
	}
	b2, err := encode(smf2)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(b, b2) {
		return "", fmt.Errorf("encoding the encoded file again gives other bytes")
	}
	// the original is still there
	b3, err := encode(smf)
	if err != nil || !bytes.Equal(b, b3) {
		return "", fmt.Errorf("encoding twice gives other bytes")
	}
	p := b[14:]
	for i, t := range smf.Tracks {
		x, err := midifile.EncodeMTrk(*t)
		if err != nil {
			return "", err
		}
		if !bytes.HasPrefix(p, x) {
			return "", fmt.Errorf("track %d is encoded differently on its own", i)
		}
		p = p[len(x):]
	}
	if len(p) > 0 {
		return "", fmt.Errorf("%d bytes after the last track", len(p))
	}
	return ifelse(bytes.Equal(b, in), "identical", "rewritten"), nil
}

func assembleText(s string) ([]byte, error) {
	return assemble.NewTextAssembler().Assemble(strings.NewReader(s))
}

func assembleJSON(s []byte) ([]byte, error) {
	return assemble.NewJSONAssembler().Assemble(bytes.NewReader(s))
}

func isText(k Kind) bool { return k >= kText && k <= kDeviceName }

// What is special about the texts and SysEx messages of a file.
type traits struct {
	newline bool // a text with a line break
	odd     bool // a text with leading or trailing blanks or that is not printable
	binary  bool // a text that is not valid UTF-8
	unknown bool // an unknown manufacturer
	open    bool // an unterminated SysEx message
	empty   bool
}

func traitsOf(f *File) (t traits) {
	for _, trk := range f.Trk {
		open := false
		for i := range trk {
			e := &trk[i]
			switch {
			case isText(e.Kind):
				if strings.ContainsAny(e.S, "\n") {
					t.newline = true
				}
				if e.S != strings.TrimSpace(e.S) {
					t.odd = true
				}
				if e.S == "" {
					t.empty = true
				}
				if !utf8.ValidString(e.S) {
					t.binary, t.odd = true, true
				}
				for _, r := range e.S {
					if !unicode.IsPrint(r) {
						t.odd = true
					}
				}
			case e.Kind == kSequencerSpecific:
				t.unknown = t.unknown || strings.HasPrefix(e.S, "<unknown>")
			case e.Kind == kSysExMessage:
				t.unknown = t.unknown || strings.HasPrefix(e.S, "<unknown>")
				open = e.V[0] == 0
			case e.Kind == kSysExContinuation:
				open = e.V[0] == 0
			}
		}
		t.open = t.open || open
	}
	return
}

// The content of an assembled file against the source, up to the known findings: the blanks around a text
// (text only) and the terminator of an unterminated SysEx message.
func sameContent(want *File, got *File, t traits, text bool) error {
	w := *want
	if t.open || t.odd {
		w.Trk = nil
		for i := range want.Trk {
			trk := append([]Ev{}, want.Trk[i]...)
			last := -1
			for k := range trk {
				e := &trk[k]
				if text && isText(e.Kind) && i < len(got.Trk) && k < len(got.Trk[i]) && got.Trk[i][k].Kind == e.Kind {
					if strings.TrimSpace(e.S) == strings.TrimSpace(got.Trk[i][k].S) {
						e.S = got.Trk[i][k].S
					}
				}
				if e.Kind == kSysExMessage || e.Kind == kSysExContinuation {
					last = k
				}
			}
			if last >= 0 && trk[last].V[0] == 0 && i < len(got.Trk) && last < len(got.Trk[i]) {
				trk[last].V[0] = got.Trk[i][last].V[0]
			}
			w.Trk = append(w.Trk, trk)
		}
	}
	return diffFile(&w, got, cmpContent)
}

func textOracle(in []byte, arg string) (string, error) {
	setMiddleC(arg)
	smf, want, err := content(in)
	if err != nil {
		return "", err
	}
	if smf == nil {
		return "rejected", nil
	}
	if want.Division >= 0x8000 {
		return "SMPTE", nil
	}
	t := traitsOf(want)
	if t.newline {
		return "line break in a text (known finding)", nil
	}
	s, err := list(smf, "document")
	if err != nil {
		return "", err
	}
	b, err := assembleText(s)
	if err != nil {
		if !t.odd && !t.unknown && !t.open {
			return "", fmt.Errorf("the listing does not assemble: %v", err)
		}
		return "refused", nil
	}
	got, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if err := sameContent(want, got, t, true); err != nil {
		return "", err
	}
	return fmt.Sprintf("same, %v", t), nil
}

func jsonOracle(in []byte, arg string) (string, error) {
	setMiddleC(arg)
	smf, want, err := content(in)
	if err != nil {
		return "", err
	}
	if smf == nil {
		return "rejected", nil
	}
	t := traitsOf(want)
	if t.binary {
		return "not UTF-8", nil
	}
	s, err := exportJSON(smf)
	if err != nil {
		return "", err
	}
	b, err := assembleJSON(s)
	if err != nil {
		return "", fmt.Errorf("the exported JSON does not assemble: %v", err)
	}
	got, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if err := sameContent(want, got, t, false); err != nil {
		return "", err
	}
	return fmt.Sprintf("same, %v", t), nil
}

func init() {
	for name, f := range map[string]Oracle{"binary": binaryOracle, "text": textOracle, "json": jsonOracle} {
		oracle(name, f)
		oracle(name+"-body", func(in []byte, arg string) (string, error) { return f(file1(in), arg) })
	}
	check(&Check{ID: "P04", Level: "exploration",
		Rule: "decode, encode, decode and encode every file of the space; the encoded bytes are parsed by the reference parser and compared event by event with the original, byte for byte with the second encoding",
		Run:  runP04})
	check(&Check{ID: "P05", Level: "exploration",
		Rule:  "disassemble and assemble every file of the space with both middle C conventions; the result is parsed by the reference parser and compared event by event with the original; an error is accepted only where the property allows it",
		Assum: []string{"known findings: texts with line breaks are skipped, blanks around a text and the terminator of an unterminated SysEx are not compared"},
		Run:   runP05})
	check(&Check{ID: "P06", Level: "exploration",
		Rule:  "export and assemble every file of the space; the result is parsed by the reference parser and compared event by event with the original",
		Assum: []string{"known finding: the terminator of an unterminated SysEx is not compared"},
		Run:   runP06})
}

// Deltas and lengths around the VLQ size limits, for every kind of event.
func vlqEdges() []uint32 {
	return []uint32{0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x2000, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0xffff, 0x100000, 0x1ffffe, 0x1fffff, 0x200000, 0x200001, 0xffffff, 0x8000000, 0xffffffe, 0xfffffff}
}

// The symbols of the alphabet with every delta.
func deltaCases(r *R, name, arg string) {
	a := alphabet()
	ds := vlqEdges()
	r.Par("every kind of event x delta "+arg, len(a)*len(ds), func(w *W, i int) bool {
		_, n, _ := readVLQ(a[i/len(ds)].B)
		return w.Case(name, cat(ch(0, 0x90, 1, 1), vlq(ds[i%len(ds)]), a[i/len(ds)].B[n:], ch(1, 0x90, 2, 2), eot), arg)
	})
	// messages in packets that are far apart, with and without other events between them
	r.Par("SysEx packets x deltas "+arg, len(ds)*len(ds)*4, func(w *W, i int) bool {
		d, e := ds[i/4%len(ds)], ds[i/4/len(ds)]
		switch i % 4 {
		case 0:
			return w.Case(name, cat(sysx(0, 0xf0, []byte{0x43, 1}), sysx(d, 0xf7, []byte{2}), sysx(e, 0xf7, []byte{3, 0xf7}), eot), arg)
		case 1:
			return w.Case(name, cat(sysx(0, 0xf0, []byte{0x43, 1}), ch(d, 0x90, 1, 1), sysx(e, 0xf7, []byte{2, 0xf7}), eot), arg)
		case 2:
			return w.Case(name, cat(sysx(d, 0xf0, []byte{0x43, 1}), sysx(e, 0xf7, []byte{2, 0xf7}), sysx(d, 0xf7, []byte{4}), sysx(e, 0xf0, []byte{0x43, 0xf7}), eot), arg)
		default:
			return w.Case(name, cat(sysx(d, 0xf7, []byte{2}), ch(e, 0xc0, 1), sysx(d, 0xf7, []byte{4, 0xf7}), sysx(e, 0xf0, []byte{0x43, 0x12, 0xf7}), eot), arg)
		}
	})
}

// Placement in several tracks, formats and divisions.
func fileCases(r *R, name, arg string) {
	c := corpus()
	r.Par("corpus "+arg, len(c), func(w *W, i int) bool { return w.Case(name, c[i].B, arg) })
	divs := []int{0, 1, 24, 96, 480, 960, 0x7fff, 0xe728, 0xe804, 0xe350, 0xe2ff, 0xe700}
	ts := [][]byte{tempoTrack(), melody(0), everything(), melody(15), nil}
	r.Par("formats x divisions x tracks "+arg, 3*len(divs)*6, func(w *W, i int) bool {
		return w.Case(name, fileN(i/6%3, divs[i/18], ts[:i%6]...), arg)
	})
	r.Par("track orders "+arg, 5*5*5, func(w *W, i int) bool {
		return w.Case(name, fileN(1, 96, ts[i%5], ts[i/5%5], ts[i/25]), arg)
	})
	r.Par("number of tracks "+arg, 40, func(w *W, i int) bool {
		b := [][]byte{}
		for k := 0; k < i*3; k++ {
			b = append(b, cat(ch(uint32(k), 0x90|byte(k%16), byte(k), 3), eot))
		}
		return w.Case(name, fileN(1, 96, b...), arg)
	})
}

// Running status and SysEx packets.
func statusAlphabet() []Sym {
	return []Sym{
		{"on", ch(0, 0x90, 0x40, 0x41)}, {"on1", ch(2, 0x91, 0x40, 0x41)}, {"off", ch(0, 0x80, 0x40, 0x41)}, {"pc", ch(0, 0xc0, 0x05)}, {"run1", ch(1, 0x07)}, {"run2", ch(0, 0x08, 0x09)},
		{"ctl", ch(0, 0xb2, 0x08, 0x09)}, {"bend", ch(0, 0xe0, 0x08, 0x09)},
		{"text", meta(0, 1, []byte("x"))}, {"eot", eot}, {"f0", sysx(0, 0xf0, []byte{0x43, 1, 0xf7})}, {"f0o", sysx(0, 0xf0, []byte{0x43, 2})},
		{"f7", sysx(0, 0xf7, []byte{3})}, {"f7e", sysx(0, 0xf7, []byte{4, 0xf7})}, {"f70", sysx(0, 0xf7, nil)}, {"f7f7", sysx(0, 0xf7, []byte{0xf7})},
	}
}

func runP04(r *R) {
	for _, d := range domains() {
		sweep(r, "binary", d, 1024)
	}
	if r.Thorough() {
		sweep(r, "binary", tempoDomain, 4096)
	} else {
		sweep(r, "binary", tempoSome, 1024)
	}
	fileCases(r, "binary", "")
	deltaCases(r, "binary-body", "")
	seqs(r, "binary-body", alphabet(), ifelse(r.Thorough(), 4, 3), "")
	seqs(r, "binary-body", statusAlphabet(), ifelse(r.Thorough(), 5, 4), "")
	// every pair of channel statuses: the running status compression
	r.Par("every pair of channel events x every meaning of the compressed bytes", 112*112, func(w *W, i int) bool {
		a, b := 0x80+byte(i%112), 0x80+byte(i/112)
		d := []byte{0x05, 0x06}
		x := cat(ch(0, a), d[:chanLen(a)], ch(1, b), d[:chanLen(b)])
		return w.Case("binary-body", cat(x, eot), "") && w.Case("binary-body", cat(x, ch(3, b), d[:chanLen(b)], ch(0), d[:chanLen(b)], eot), "")
	})
	r.Par("channel event, other event, channel event", 112*len(alphabet()), func(w *W, i int) bool {
		a := 0x80 + byte(i%112)
		d := []byte{0x05, 0x06}
		e := cat(ch(0, a), d[:chanLen(a)])
		return w.Case("binary-body", cat(e, e, alphabet()[i/112].B, e, e, eot), "")
	})
	r.Par("texts", len(trickyTexts())*9, func(w *W, i int) bool {
		return w.Case("binary-body", cat(meta(0, textTypes[i%9], []byte(trickyTexts()[i/9])), eot), "")
	})
	bodies3(r, "binary-body")
	scaleCases(r, r.Par, "binary", "", 4096)
	extremeTriples(r, "binary", "", file1)
	rawTextCases(r, r.Par, "binary", "")
}

// For the slow round trips, large domains are covered with a stride in the quick tier.
func strided(r *R, ds []Domain, limit, n, maxLen int) []Domain {
	out := []Domain{}
	for _, d := range ds {
		if d.N > limit {
			d = d.stride(n)
		}
		if strings.HasSuffix(d.Name, "/length") && maxLen > 0 {
			idx := []int{}
			for i := 0; i < d.N; i++ {
				if len(d.At(i)) < maxLen {
					idx = append(idx, i)
				}
			}
			f := d.At
			d.At, d.N = func(i int) []byte { return f(idx[i]) }, len(idx)
		}
		out = append(out, d)
	}
	return out
}

func runP05(r *R) {
	programCases(r, programLines("assemble .txt|out", "assemble .txt|default", "disassemble|out")...)
	texts := trickyTexts()
	for _, mode := range []string{"C3", "C4"} {
		for _, d := range strided(r, domains(), ifelse(r.Thorough(), 1<<30, 60000), 3, 0) {
			if mode == "C4" && d.Kind != kNoteOn && d.Kind != kNoteOff {
				continue
			}
			sweepArg(r, "text", d, 64, mode)
		}
		fileCases(r, "text", mode)
		seqs(r, "text-body", alphabet(), ifelse(r.Thorough() || mode == "C3", 3, 2), mode)
		r.Par("key signature x note x convention "+mode, 30*128, func(w *W, i int) bool {
			k := []byte{byte(int8(i%15 - 7)), byte(i / 15 % 2)}
			n := byte(i / 30)
			return w.Case("text-body", cat(meta(0, 0x59, k), ch(0, 0x90, n, 1), ch(1, 0x80, n, 2), ch(0, 0x90, n, 1), meta(0, 0x59, []byte{byte(-int8(k[0])), 0}), ch(1, 0x80, n, 2), eot), mode)
		})
	}
	scaleCases(r, r.Par, "text", "C3", 1024)
	if r.Thorough() {
		extremeTriples(r, "text", "C3", file1)
	}
	rawTextCases(r, r.Par, "text", "C3")
	sweep(r, "text", ifelse(r.Thorough(), tempoDomain.stride(17), tempoSome), 64)
	deltaCases(r, "text-body", "C3")
	seqs(r, "text-body", statusAlphabet(), ifelse(r.Thorough(), 4, 3), "C3")
	r.Par("texts", len(texts)*9, func(w *W, i int) bool {
		return w.Case("text-body", cat(meta(0, textTypes[i%9], []byte(texts[i/9])), eot), "C3")
	})
	r.Par("texts next to other texts and in other tracks", len(texts)*len(texts), func(w *W, i int) bool {
		a, b := []byte(texts[i%len(texts)]), []byte(texts[i/len(texts)])
		return w.Case("text", fileN(1, 96, cat(meta(0, 3, a), eot), cat(meta(0, textTypes[i%9], b), meta(7, 1, a), eot)), "C3")
	})
	mans := manufacturerIDs()
	r.Par("manufacturers", len(mans)*3, func(w *W, i int) bool {
		m := mans[i/3]
		switch i % 3 {
		case 0:
			return w.Case("text-body", cat(meta(0, 0x7f, append(append([]byte{}, m...), 1, 2)), meta(0, 0x7f, m), eot), "C3")
		case 1:
			return w.Case("text-body", cat(sysx(0, 0xf0, append(append([]byte{}, m...), 1, 0xf7)), eot), "C3")
		default:
			return w.Case("text-body", cat(sysx(0, 0xf0, append(append([]byte{}, m...), 1)), sysx(0, 0xf7, []byte{5}), ch(0, 0x90, 1, 1), sysx(0, 0xf7, []byte{5, 0xf7}), eot), "C3")
		}
	})
	setMiddleC("C3")
}

func runP06(r *R) {
	programCases(r, programLines("assemble .json|out", "assemble .json|default", "export|out", "export|stdout")...)
	texts := trickyTexts()
	for _, d := range domains() {
		sweepArg(r, "json", d, 64, "C3")
	}
	sweep(r, "json", ifelse(r.Thorough(), tempoDomain, tempoSome), 64)
	fileCases(r, "json", "C3")
	scaleCases(r, r.Par, "json", "C3", 1024)
	if r.Thorough() {
		extremeTriples(r, "json", "C3", file1)
	}
	rawTextCases(r, r.Par, "json", "C3")
	fileCases(r, "json", "C4")
	deltaCases(r, "json-body", "C3")
	seqs(r, "json-body", alphabet(), 3, "C3")
	seqs(r, "json-body", statusAlphabet(), ifelse(r.Thorough(), 5, 4), "C3")
	r.Par("texts", (len(texts)+65536)*9, func(w *W, i int) bool {
		if !r.Thorough() && i > len(texts)*9 && i%4 != 0 {
			return true
		}
		t := ""
		if i/9 < len(texts) {
			t = texts[i/9]
		} else {
			t = "x" + string(rune(i/9-len(texts)))
		}
		return w.Case("json-body", cat(meta(0, textTypes[i%9], []byte(t)), eot), "C3")
	})
	r.Par("texts with line breaks and blanks", 9*8, func(w *W, i int) bool {
		t := []string{"", " ", "\n", "a\nb", " a ", "\r\n", "\t", "a\x00b"}[i/9]
		return w.Case("json-body", cat(meta(0, textTypes[i%9], []byte(t)), eot), "C3")
	})
	mans := manufacturerIDs()
	r.Par("manufacturers", len(mans), func(w *W, i int) bool {
		m := mans[i]
		return w.Case("json-body", cat(meta(0, 0x7f, append(append([]byte{}, m...), 1, 2)), meta(0, 0x7f, m), sysx(0, 0xf0, append(append([]byte{}, m...), 1, 0xf7)), eot), "C3")
	})
	r.Par("divisions", 65536*3, func(w *W, i int) bool {
		if !r.Thorough() && i&0x7f != 0x28 && i&0x8000 == 0 {
			return true
		}
		return w.Case("json", fileN(i>>16, i&0xffff, eot), "C3")
	})
	setMiddleC("C3")
}

// Every manufacturer ID of the reference table and some unknown ones.
func manufacturerIDs() [][]byte {
	out := [][]byte{}
	for i := 1; i < 256; i++ {
		out = append(out, []byte{byte(i)})
	}
	for k := range refManufacturers {
		if len(k) == 6 {
			var a, b, c byte
			fmt.Sscanf(k, "%02X%02X%02X", &a, &b, &c)
			out = append(out, []byte{a, b, c})
		}
	}
	return append(out, []byte{0, 0x55, 0x55}, []byte{0, 0, 0}, []byte{0, 0x7f, 0x7f})
}
