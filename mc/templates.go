package main

// Custom listing templates (P24): a model of the listing as a tree of fragments, taken apart with the
// default templates, and every small set and sequence of replacements.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/disassemble"
)

var leafOf = map[string]string{
	"SequenceNumber": "sequenceno", "Text": "text", "Copyright": "copyright", "TrackName": "trackname", "InstrumentName": "instrumentname",
	"Lyric": "lyric", "Marker": "marker", "CuePoint": "cuepoint", "ProgramName": "programname", "DeviceName": "devicename",
	"MIDIChannelPrefix": "midichannelprefix", "MIDIPort": "midiport", "EndOfTrack": "endoftrack", "Tempo": "tempo", "SMPTEOffset": "smpteoffset",
	"TimeSignature": "timesignature", "KeySignature": "keysignature", "SequencerSpecificEvent": "sequencerspecificevent",
	"NoteOff": "noteoff", "NoteOn": "noteon", "PolyphonicPressure": "polyphonicpressure", "Controller": "controller", "ProgramChange": "programchange",
	"ChannelPressure": "channelpressure", "PitchBend": "pitchbend", "SysExMessage": "sysexmessage", "SysExContinuation": "sysexcontinuation", "SysExEscape": "sysexescape",
}

var fragments = sync.OnceValue(func() []string {
	s := []string{"document", "MThd", "MTrk", "event", "events", "hex"}
	for _, l := range leafOf {
		s = append(s, l)
	}
	sort.Strings(s)
	return s
})

// The variants of a replacement: the template text, and what it gives.
const variants = 4

func variantText(frag string, v int) string {
	switch {
	case frag == "hex" && v%2 == 1: // the data is the bytes
		return "<hex {{len .}}>"
	case v == 1 && (frag != "document" && frag != "event"):
		return "<{{.Tag}}:1>"
	case v == 2:
		return fmt.Sprintf("{{pad %d \"%s\"}}|", len(frag)+5, frag)
	case v == 3 && (frag != "document" && frag != "MThd" && frag != "MTrk"):
		return "\n[{{template \"hex\" .Bytes}}]\n"
	}
	return fmt.Sprintf("<<%s.%d>>", frag, v)
}

type piece struct{ hex, raw, mid, leaf, leafText, tail, tag string }
type trackPieces struct {
	head   string
	events []piece
}
type listingModel struct {
	mthd, mthdTag, trackTag string
	tracks                  []trackPieces
}

// Takes a default listing apart. ok is false if the default fragments do not compose as the model has it.
func takeApart(smf *midi.SMF) (m listingModel, ok bool) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return m, false
	}
	ok = true
	p := func(v any, t string) string {
		var b bytes.Buffer
		if err := d.Print(v, t, &b); err != nil {
			ok = false
		}
		return b.String()
	}
	m.mthd = p(smf.MThd, "MThd")
	m.mthdTag, m.trackTag = "MThd", "MTrk"
	for _, t := range smf.Tracks {
		tp := trackPieces{}
		all := ""
		for _, e := range t.Events {
			ev := p(e, "event")
			all += ev
			x := piece{raw: fmt.Sprint(len(e.Bytes()))}
			x.hex = p(e.Bytes(), "hex")
			inner := p(e.Event, "events")
			x.tag = e.Event.Tag()
			x.leaf = leafOf[x.tag]
			if x.leaf == "" {
				return m, false
			}
			x.leafText = p(e.Event, x.leaf)
			if !strings.HasPrefix(ev, x.hex) || !strings.HasSuffix(ev, inner) || len(x.hex)+len(inner) > len(ev) || !strings.HasPrefix(inner, x.leafText) {
				return m, false
			}
			x.mid = ev[len(x.hex) : len(ev)-len(inner)]
			x.tail = inner[len(x.leafText):]
			tp.events = append(tp.events, x)
		}
		trk := p(t, "MTrk")
		if !strings.HasSuffix(trk, all) {
			return m, false
		}
		tp.head = trk[:len(trk)-len(all)]
		m.tracks = append(m.tracks, tp)
	}
	if m.render(nil) != p(smf, "document") {
		return m, false
	}
	return m, ok
}

// The listing with replacements.
func (m listingModel) render(c map[string]int) string {
	s, _, _ := m.parts(c)
	return s
}

// The listing with replacements, and those of the header and of each track.
func (m listingModel) parts(c map[string]int) (string, string, []string) {
	custom := func(frag, tag string, x *piece) (string, bool) {
		v, ok := c[frag]
		if !ok {
			return "", false
		}
		s := variantText(frag, v)
		if x != nil && strings.Contains(s, "{{len .}}") {
			s = strings.Replace(s, "{{len .}}", x.raw, 1)
		}
		if x != nil && strings.Contains(s, "{{template") {
			h := x.hex
			if w, ok := c["hex"]; ok {
				if w == 3 {
					w = 1
				}
				h = strings.Replace(variantText("hex", w), "{{len .}}", x.raw, 1)
				if strings.Contains(h, "{{pad") {
					h = "hex     |"
				}
			}
			s = strings.Replace(s, `{{template "hex" .Bytes}}`, h, 1)
		}
		s = strings.Replace(s, "{{.Tag}}", tag, 1)
		if strings.Contains(s, "{{pad") {
			s = frag + "     |"
		}
		return s, true
	}
	header := m.mthd
	if s, ok := custom("MThd", m.mthdTag, nil); ok {
		header = s
	}
	tracks := []string{}
	for _, t := range m.tracks {
		if s, ok := custom("MTrk", m.trackTag, nil); ok {
			tracks = append(tracks, s)
			continue
		}
		var b strings.Builder
		b.WriteString(t.head)
		for i := range t.events {
			x := &t.events[i]
			if s, ok := custom("event", x.tag, x); ok {
				b.WriteString(s)
				continue
			}
			if s, ok := custom("hex", x.tag, x); ok {
				b.WriteString(s)
			} else {
				b.WriteString(x.hex)
			}
			b.WriteString(x.mid)
			if s, ok := custom("events", x.tag, x); ok {
				b.WriteString(s)
				continue
			}
			if s, ok := custom(x.leaf, x.tag, x); ok {
				b.WriteString(s)
			} else {
				b.WriteString(x.leafText)
			}
			b.WriteString(x.tail)
		}
		tracks = append(tracks, b.String())
	}
	document := header + strings.Join(tracks, "")
	if s, ok := custom("document", "", nil); ok {
		document = s
	}
	return document, header, tracks
}

var templateDoc = sync.OnceValues(func() (*midi.SMF, listingModel) {
	smf, err := decode(fileN(1, 480, tempoTrack(), everything(), melody(4)))
	if err != nil {
		panic(err)
	}
	m, ok := takeApart(smf)
	if !ok {
		m.mthd = ""
	}
	return smf, m
})

// A load: "frag.variant,frag.variant"; arg is a sequence of loads separated by spaces; "!" prints in between.
func templateOracle(in []byte, arg string) (string, error) {
	smf, m := templateDoc()
	if m.mthd == "" {
		return "the default listing does not compose as in the model", nil
	}
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	current := map[string]int{}
	matches := func(d *disassemble.Disassemble, c map[string]int) error {
		var b bytes.Buffer
		if err := d.Print(smf, "document", &b); err != nil {
			return fmt.Errorf("templates %s: %v", arg, err)
		}
		if want := m.render(c); b.String() != want {
			return fmt.Errorf("templates %s: %s", arg, firstDiff(want, b.String()))
		}
		return nil
	}
	for _, l := range strings.Fields(arg) {
		if l == "!" {
			if err := matches(d, current); err != nil {
				return "", err
			}
			continue
		}
		t := map[string]string{}
		for _, x := range strings.Split(l, ",") {
			frag, v, _ := strings.Cut(x, ".")
			n := int(v[0] - '0')
			t[frag] = variantText(frag, n)
			current[frag] = n
		}
		js, _ := json.Marshal(map[string]any{"templates": t})
		if err := d.LoadTemplates(bytes.NewReader(js)); err != nil {
			return "", fmt.Errorf("loading %s: %v", js, err)
		}
	}
	if err := matches(d, current); err != nil {
		return "", err
	}
	// the header and the tracks on their own
	_, header, tracks := m.parts(current)
	var b bytes.Buffer
	if err := d.Print(smf.MThd, "MThd", &b); err != nil {
		return "", err
	} else if b.String() != header {
		return "", fmt.Errorf("templates %s: header on its own: %s", arg, firstDiff(header, b.String()))
	}
	for i, t := range smf.Tracks {
		var b bytes.Buffer
		if err := d.Print(t, "MTrk", &b); err != nil {
			return "", err
		} else if b.String() != tracks[i] {
			return "", fmt.Errorf("templates %s: track %d on its own: %s", arg, i, firstDiff(tracks[i], b.String()))
		}
	}
	return fmt.Sprintf("%d fragments", len(current)), nil
}

// The program with a template file. arg: "frag.variant,frag.variant command line"
func templateProgramOracle(in []byte, arg string) (string, error) {
	f := strings.Fields(arg)
	current := map[string]int{}
	t := map[string]string{}
	for _, x := range strings.Split(f[0], ",") {
		frag, v, _ := strings.Cut(x, ".")
		current[frag] = int(v[0] - '0')
		t[frag] = variantText(frag, current[frag])
	}
	cliLock.Lock()
	setMiddleC(ifelse(strings.Contains(arg, "--C4"), "C4", ""))
	smf, err := decode(in)
	if err != nil {
		cliLock.Unlock()
		return "", err
	}
	m, ok := takeApart(smf)
	setMiddleC("")
	cliLock.Unlock()
	if !ok {
		return "the default listing does not compose as in the model", nil
	}
	js, _ := json.Marshal(map[string]any{"templates": t})
	res, e := cliRun(map[string][]byte{"x.mid": in, "t.json": js}, nil, append(f[1:], "--templates", "t.json", "x.mid"))
	if e != nil {
		return "the program does not run", nil
	}
	fail := func(format string, a ...any) (string, error) {
		return "", fmt.Errorf("midiasm %s with templates %s: %s\nexit status %d, stderr: %s", strings.Join(f[1:], " "), f[0], fmt.Sprintf(format, a...), res.code, trim(res.errs, 500))
	}
	if res.code != 0 {
		return fail("fails")
	}
	document, header, tracks := m.parts(current)
	want := map[string]string{}
	switch {
	case strings.Contains(arg, "--split"):
		want["x.MThd"] = header
		for i, s := range tracks {
			want[fmt.Sprintf("x-%d.MTrk", i)] = s
		}
	case strings.Contains(arg, "--out"):
		want["out"] = document
	default:
		want["stdout"] = document
		res.files["stdout"] = res.out
	}
	for n, s := range want {
		if g, ok := res.files[n]; !ok {
			return fail("%s is not written", n)
		} else if g != s {
			return fail("%s: %s", n, firstDiff(s, g))
		}
	}
	return "same", nil
}

// The default listing is not affected by the templates of another disassembler.
func templateIsolationOracle(in []byte, arg string) (string, error) {
	smf, m := templateDoc()
	if m.mthd == "" {
		return "the default listing does not compose as in the model", nil
	}
	a, _ := disassemble.NewDisassemble()
	b, _ := disassemble.NewDisassemble()
	if err := a.LoadTemplates(strings.NewReader(fmt.Sprintf(`{"templates":{%q:"zzz"}}`, arg))); err != nil {
		return "", err
	}
	c, _ := disassemble.NewDisassemble()
	for _, x := range []*disassemble.Disassemble{b, c} {
		var w bytes.Buffer
		if err := x.Print(smf, "document", &w); err != nil {
			return "", err
		}
		if want := m.render(nil); w.String() != want {
			return "", fmt.Errorf("template %s loaded in another disassembler: %s", arg, firstDiff(want, w.String()))
		}
	}
	return "same", nil
}

// A template file that has to be rejected (arg "reject"), or accepted without effect (arg "none").
func templateFileOracle(in []byte, arg string) (string, error) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	err = d.LoadTemplates(bytes.NewReader(in))
	switch {
	case arg == "reject" && err == nil:
		return "", fmt.Errorf("invalid template file accepted: %s", trim(string(in), 300))
	case arg == "none" && err != nil:
		return "", fmt.Errorf("template file %s: %v", trim(string(in), 300), err)
	case arg == "none":
		smf, m := templateDoc()
		if m.mthd == "" {
			return "the default listing does not compose as in the model", nil
		}
		var w bytes.Buffer
		if err := d.Print(smf, "document", &w); err != nil {
			return "", err
		}
		if want := m.render(nil); w.String() != want {
			return "", fmt.Errorf("template file %s: %s", trim(string(in), 300), firstDiff(want, w.String()))
		}
		return "no effect", nil
	}
	return "rejected", nil
}

// A template that fails while printing: an error if and only if the listing has the fragment.
func templateFailureOracle(in []byte, arg string) (string, error) {
	frag, action, _ := strings.Cut(arg, " ")
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	js, _ := json.Marshal(map[string]any{"templates": map[string]string{frag: action}})
	if err := d.LoadTemplates(bytes.NewReader(js)); err != nil {
		return "rejected", nil
	}
	smf, err := decode(in)
	if err != nil {
		return "", err
	}
	uses := frag == "document" || frag == "MThd" || (len(smf.Tracks) > 0 && frag == "MTrk")
	for _, t := range smf.Tracks {
		for _, e := range t.Events {
			uses = uses || frag == "event" || frag == "events" || frag == "hex" || leafOf[e.Event.Tag()] == frag
		}
	}
	var w bytes.Buffer
	err = d.Print(smf, "document", &w)
	if uses && err == nil {
		return "", fmt.Errorf("template %s fails but the listing is reported as complete", arg)
	}
	if !uses && err != nil {
		return "", fmt.Errorf("template %s is not used but fails: %v", arg, err)
	}
	return ifelse(uses, "fails", "not used"), nil
}

func templateReadOracle(in []byte, arg string) (string, error) {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		return "", err
	}
	rd, fails := parseReader(in, arg)
	err = d.LoadTemplates(rd)
	if fails {
		if err == nil {
			return "", fmt.Errorf("read error while loading templates is not reported (%s)", arg)
		}
		return "reported", nil
	}
	if err != nil {
		return "", err
	}
	smf, m := templateDoc()
	if m.mthd == "" {
		return "the default listing does not compose as in the model", nil
	}
	var w bytes.Buffer
	if err := d.Print(smf, "document", &w); err != nil {
		return "", err
	}
	if want := m.render(map[string]int{"noteon": 0, "hex": 0}); w.String() != want {
		return "", fmt.Errorf("templates read in parts (%s): %s", arg, firstDiff(want, w.String()))
	}
	return "same", nil
}

func init() {
	oracle("templates", templateOracle)
	oracle("template-isolation", templateIsolationOracle)
	oracle("template-file", templateFileOracle)
	oracle("template-failure", templateFailureOracle)
	oracle("template-read", templateReadOracle)
	oracle("template-program", templateProgramOracle)
	check(&Check{ID: "P24", Level: "model_checking",
		Rule:  "a model of the listing as a tree of fragments: all sets of up to two (quick) or three (thorough) replaced fragments in every variant, all but each pair of them, and all sequences of up to three loads, with the listing of the real disassembler compared with the model's; every invalid template text for every fragment, every truncation of a template file, every read error; the header and each track on their own; the program with a template file for every fragment",
		Assum: []string{"a blank template and templates that define other templates are outside the space (unspecified)", "the composition of the default fragments is taken from the default listing"},
		Run:   runP24})
}

func runP24(r *R) {
	fs := fragments()
	n := len(fs)
	load := func(f, v int) string { return fmt.Sprintf("%s.%d", fs[f], v) }
	add := func(states, transitions int) {
		r.states.Add(int64(states))
		r.transitions.Add(int64(transitions))
		r.traces.Add(int64(transitions))
	}
	r.Par("single fragments", n*variants, func(w *W, i int) bool {
		return w.Case("templates", nil, load(i/variants, i%variants)) && w.Case("templates", nil, "! "+load(i/variants, i%variants))
	})
	add(1+n*variants, n*variants)
	k := n * variants
	r.Par("pairs of fragments, one load and two", k*k, func(w *W, i int) bool {
		a, b := i%k, i/k
		x, y := load(a/variants, a%variants), load(b/variants, b%variants)
		if a/variants != b/variants && a < b {
			if !w.Case("templates", nil, x+","+y) {
				return false
			}
		}
		return (!r.Thorough() && a%variants != b%variants) || w.Case("templates", nil, x+" ! "+y)
	})
	add(k*k/2, k*k)
	// all fragments but two
	r.Par("all leaf fragments but two", n*n*2, func(w *W, i int) bool {
		x := []string{}
		for f := range fs {
			switch fs[f] {
			case "document", "MThd", "MTrk", "event", "events":
				continue
			}
			if f != i%n && f != i/n%n {
				x = append(x, load(f, i/n/n))
			}
		}
		return w.Case("templates", nil, strings.Join(x, ","))
	})
	add(n*n, n*n)
	// sequences of three loads: a fragment of each level
	sel := []int{}
	for f := range fs {
		switch fs[f] {
		case "MThd", "MTrk", "event", "events", "hex", "noteon", "endoftrack", "trackname":
			sel = append(sel, f)
		default:
			if r.Thorough() {
				sel = append(sel, f)
			}
		}
	}
	m := len(sel) * 2
	r.Par("sequences of three loads", m*m*m, func(w *W, i int) bool {
		s := []string{}
		for _, x := range []int{i % m, i / m % m, i / m / m} {
			s = append(s, load(sel[x/2], x%2))
		}
		return w.Case("templates", nil, strings.Join(s, " "))
	})
	add(m*m*m, m*m*m)
	r.Par("templates of another disassembler", n, func(w *W, i int) bool { return w.Case("template-isolation", nil, fs[i]) })
	// invalid files
	bad := []string{"{{", "{{.Tag", "{{.Tag}", "}}{{", "{{nosuch .}}", "{{if}}", "{{if .Tag}}", "{{end}}", "{{range .}}", "{{.Tag | nosuch}}", "{{pad 22 .Tag", "{{template}}", "{{define \"x\"}}", "{{\"abc}}", "{{.Tag)}}", "{{/* }}", "{{else}}", "{{1 2 3.4.5}}", "{{$x}}", "{{with}}"}
	r.Par("invalid template texts", len(bad)*n*2, func(w *W, i int) bool {
		t := map[string]string{fs[i/len(bad)%n]: bad[i%len(bad)]}
		if i/len(bad)/n == 1 {
			t["another"] = "valid"
			t["zzz"] = "valid {{.}}"
		}
		js, _ := json.Marshal(map[string]any{"templates": t})
		return w.Case("template-file", js, "reject")
	})
	valid := []byte(`{ "templates": { "noteon": "<<noteon.0>>", "hex": "<<hex.0>>" } }`)
	r.Par("truncated template files", len(valid), func(w *W, i int) bool { return w.Case("template-file", valid[:i], "reject") })
	r.Par("template files with a byte replaced", len(valid)*256, func(w *W, i int) bool {
		b := append([]byte{}, valid...)
		b[i/256] = byte(i)
		if json.Valid(b) {
			return true
		}
		return w.Case("template-file", b, "reject")
	})
	files := map[string]string{
		`[]`: "reject", `5`: "reject", `"x"`: "reject", `true`: "reject", ``: "reject", `{"templates":[]}`: "reject", `{"templates":5}`: "reject",
		`{"templates":"noteon"}`: "reject", `{"templates":{"noteon":5}}`: "reject", `{"templates":{"noteon":["x"]}}`: "reject", `{"templates":{"noteon":{}}}`: "reject",
		`{}`: "none", `{"templates":{}}`: "none", `{"templates":{"nosuchfragment":"x"}}`: "none", `{"other":{"noteon":"x"}}`: "none", `{"templates":{"NOTEON":"x"}}`: "none",
	}
	keys := []string{}
	for f := range files {
		keys = append(keys, f)
	}
	sort.Strings(keys)
	r.Par("template files", len(keys), func(w *W, i int) bool { return w.Case("template-file", []byte(keys[i]), files[keys[i]]) })
	fails := []string{"{{.NoSuchField}}", "{{template \"nosuchtemplate\" .}}", "x{{index . 99999}}", "{{.Tag.Nope}}", "{{slice . 5 1}}"}
	docs := []Named{{"all", fileN(1, 480, tempoTrack(), everything())}, {"little", file1(ch(0, 0x90, 60, 1), eot)}, {"none", hdr(1, 0, 96)}}
	r.Par("templates that fail", len(fails)*n*len(docs), func(w *W, i int) bool {
		return w.Case("template-failure", docs[i/len(fails)/n].B, fs[i/len(fails)%n]+" "+fails[i%len(fails)])
	})
	r.Par("read errors", len(valid)+1, func(w *W, i int) bool {
		return w.Case("template-read", valid, fmt.Sprintf("fail=%d", i)) && w.Case("template-read", valid, fmt.Sprintf("cuts=%d", i)) && w.Case("template-read", valid, fmt.Sprintf("every=%d", i+1))
	})
	lines := []string{"disassemble", "--verbose", "disassemble --out out", "--C4 --out out", "disassemble --split", "--split", "disassemble --C4 --split"}
	if !r.Thorough() {
		lines = []string{"disassemble", "--out out", "disassemble --C4 --split"}
	}
	pdocs := []Named{{"all", fileN(1, 480, tempoTrack(), everything(), melody(4))}, {"two keys", file1(meta(0, 0x59, []byte{0xfe, 0}), ch(0, 0x90, 61, 1), ch(0, 0x80, 61, 1), meta(0, 0x59, []byte{1, 0}), ch(0, 0x90, 61, 1), eot)}, {"none", hdr(1, 0, 96)}}
	pn := ifelse(r.Thorough(), variants, 2)
	r.Par("the program with each fragment", len(lines)*len(pdocs)*n*pn, func(w *W, i int) bool {
		l, i := i%len(lines), i/len(lines)
		d, i := i%len(pdocs), i/len(pdocs)
		return w.Case("template-program", pdocs[d].B, load(i/pn, i%pn)+" "+lines[l])
	})
	r.Sample(map[string]any{"loads": "hex.3 ! noteon.3", "oracle": "the listing of the model with the two fragments replaced"})
}
