package main

// The assemblers on arbitrary sources (P17) and the text assembler's pipeline (P23).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/transcriptaze/midiasm/ops/assemble"
)

// What a text source contains: headers, and the number of event lines of each track. ok is false if the
// source is ambiguous (a line that could be read in two ways).
func textShape(s string) (headers int, tracks []int, stray int, ok bool) {
	ok = true
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		h, k, e := strings.Contains(l, "MThd"), strings.Contains(l, "MTrk"), strings.Contains(l, "delta:")
		switch {
		case t == "" || strings.HasPrefix(l, "%%"):
		case strings.HasPrefix(t, "%%") || h && k && !e:
			ok = false
		case h && !e:
			headers++
			if headers > 1 || len(tracks) > 0 {
				ok = false
			}
		case k && !e:
			tracks = append(tracks, 0)
		case len(tracks) > 0:
			tracks[len(tracks)-1]++
		case headers > 0 || e:
			stray++
		}
	}
	return
}

func assembleTextOracle(in []byte, arg string) (string, error) {
	b, err := assembleText(string(in))
	if err != nil {
		if len(b) > 0 {
			return "", fmt.Errorf("an error (%v) with a file of %d bytes", err, len(b))
		}
		if arg == "valid" {
			return "", fmt.Errorf("valid source rejected: %v", err)
		}
		return "error", nil
	}
	f, err := wellformed(b)
	if err != nil {
		return "", err
	}
	h, tracks, stray, ok := textShape(string(in))
	if !ok {
		return "ambiguous", nil
	}
	if h == 0 {
		return "", fmt.Errorf("a source without MThd was assembled: % X", clip(b))
	}
	if stray > 0 {
		return "", fmt.Errorf("%d lines outside a track were dropped", stray)
	}
	if len(f.Trk) != len(tracks) {
		return "", fmt.Errorf("%d source tracks, %d tracks", len(tracks), len(f.Trk))
	}
	for i, n := range tracks {
		if len(f.Trk[i]) != n {
			return "", fmt.Errorf("track %d: %d source events, %d events", i, n, len(f.Trk[i]))
		}
	}
	return fmt.Sprintf("assembled %d tracks", len(tracks)), nil
}

func get(m map[string]any, key string) any {
	for k, v := range m {
		if strings.EqualFold(k, key) {
			return v
		}
	}
	return nil
}

func assembleJSONOracle(in []byte, arg string) (string, error) {
	b, err := assembleJSON(in)
	if err != nil {
		if len(b) > 0 {
			return "", fmt.Errorf("an error (%v) with a file of %d bytes", err, len(b))
		}
		if arg == "valid" {
			return "", fmt.Errorf("valid source rejected: %v", err)
		}
		return "error", nil
	}
	f, err := wellformed(b)
	if err != nil {
		return "", err
	}
	var doc map[string]any
	if err := json.NewDecoder(bytes.NewReader(in)).Decode(&doc); err != nil {
		return "", fmt.Errorf("invalid JSON was assembled (%v)", err)
	}
	tracks, _ := get(doc, "tracks").([]any)
	if len(tracks) != len(f.Trk) {
		return "", fmt.Errorf("%d source tracks, %d tracks", len(tracks), len(f.Trk))
	}
	for i, t := range tracks {
		m, _ := t.(map[string]any)
		es, _ := get(m, "events").([]any)
		if len(es) != len(f.Trk[i]) {
			return "", fmt.Errorf("track %d: %d source events, %d events", i, len(es), len(f.Trk[i]))
		}
		for k, e := range es {
			if arg == "tags" {
				m, _ := e.(map[string]any)
				v, _ := get(m, "event").(map[string]any)
				if tag, _ := get(v, "tag").(string); tag != f.Trk[i][k].Kind.String() {
					// a continuation without a message is encoded as an escape
					if !strings.HasPrefix(tag, "SysEx") {
						return "", fmt.Errorf("track %d: event %d: %q assembled as %v", i, k, tag, f.Trk[i][k].Kind)
					}
				}
			}
		}
	}
	return fmt.Sprintf("assembled %d tracks", len(tracks)), nil
}

// Goroutines left behind. Sequential use only.
func leakOracle(in []byte, arg string) (string, error) {
	before := runtime.NumGoroutine()
	var err error
	if form, rest, _ := strings.Cut(arg, " "); form == "json" {
		_, err = assembleJSON(in)
	} else if form == "read" {
		s, _ := parseReader(in, rest)
		_, err = assemble.NewTextAssembler().Assemble(s)
	} else {
		_, err = assembleText(string(in))
	}
	end := time.Now().Add(3 * time.Second)
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i < 1000 {
			runtime.Gosched()
		} else if time.Now().After(end) {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, true)]
			k := bytes.Index(buf, []byte("midiasm"))
			return "", fmt.Errorf("%d goroutines left behind (assemble: %v)\n%s", runtime.NumGoroutine()-before, err, trim(string(buf[max(0, k-200):]), 1500))
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return ifelse(err == nil, "assembled, clean", "error, clean"), nil
}

// Sources: the listing and the JSON export of a file.
func textOf(b []byte) string {
	smf, err := decode(b)
	if err != nil {
		panic(err)
	}
	s, err := list(smf, "document")
	if err != nil {
		panic(err)
	}
	return s
}

func jsonOf(b []byte) []byte {
	smf, err := decode(b)
	if err != nil {
		panic(err)
	}
	s, err := exportJSON(smf)
	if err != nil {
		panic(err)
	}
	var c bytes.Buffer
	json.Compact(&c, s)
	return c.Bytes()
}

// One listing line per kind of event.
func eventLines() []string {
	ls := []string{}
	for _, l := range strings.Split(textOf(fileN(0, 480, everything())), "\n") {
		if strings.Contains(l, "delta:") {
			ls = append(ls, collapseRight(l))
		}
	}
	return ls
}

func collapseRight(l string) string {
	// without the bytes column, to keep the lines short
	if k := strings.Index(l, "tick:"); k > 0 {
		return "  " + strings.Join(strings.Fields(l[k:]), " ")
	}
	return l
}

func eventObjects() []string {
	var doc struct {
		Tracks []struct{ Events []json.RawMessage }
	}
	json.Unmarshal(jsonOf(fileN(0, 480, everything())), &doc)
	out := []string{}
	for _, e := range doc.Tracks[0].Events {
		out = append(out, string(e))
	}
	return out
}

// Line kinds for the structure of a document.
var docLines = []string{
	"MThd length:6, format:1, tracks:1, metrical time:96 ppqn",
	"MTrk 0 length:4",
	"   tick:0 delta:5 91 NoteOn channel:1 note:C4, velocity:64",
	"   tick:0 delta:0 2F EndOfTrack",
	"   tick:0 delta:0 91 NoteOn channel:99 note:C4, velocity:64",
	"   nonsense",
	"%% MTrk delta:0 comment MThd",
	"   ",
}

func structureOracle(in []byte, arg string) (string, error) {
	// the grammar: comments and blank lines are ignored; a header, then tracks of valid events
	var ls []string
	state, valid, dup, pre := 0, true, false, false
	tracks := []int{}
	for _, c := range in {
		ls = append(ls, docLines[c])
		switch c {
		case 0:
			dup = dup || state > 0
			state = 1
		case 1:
			valid = valid && state > 0
			state = 2
			tracks = append(tracks, 0)
		case 2, 3:
			valid = valid && state == 2
			if state == 2 {
				tracks[len(tracks)-1]++
			}
		case 4:
			valid = false
		case 5:
			if state == 0 {
				pre = true
			} else {
				valid = false
			}
		}
	}
	if state == 0 {
		valid = false
	}
	sep := ifelse(arg == "crlf", "\r\n", "\n")
	src := strings.Join(ls, sep)
	if arg != "open" {
		src += sep
	}
	b, err := assembleText(src)
	if dup || pre && valid {
		if err == nil {
			_, err = wellformed(b)
			return "unspecified, assembled", err
		}
		return "unspecified, error", nil
	}
	if !valid {
		if err == nil {
			return "", fmt.Errorf("an invalid source was assembled to % X:\n%s", clip(b), src)
		}
		return "error", nil
	}
	if err != nil {
		return "", fmt.Errorf("a valid source was rejected (%v):\n%s", err, src)
	}
	f, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if len(f.Trk) != len(tracks) {
		return "", fmt.Errorf("%d source tracks, %d tracks", len(tracks), len(f.Trk))
	}
	for i, n := range tracks {
		if len(f.Trk[i]) != n {
			return "", fmt.Errorf("track %d: %d source events, %d events", i, n, len(f.Trk[i]))
		}
	}
	return "assembled", nil
}

// As many source tracks as arg says: assembled with exactly that many, or an error.
func trackCountOracle(in []byte, arg string) (string, error) {
	n, _ := strconv.Atoi(arg)
	var b []byte
	var err error
	if in[0] == 0 {
		b, err = assembleText("MThd format:1 metrical time:96 ppqn\n" + strings.Repeat("MTrk\n delta:0 2F EndOfTrack\n", n))
	} else {
		b, err = assembleJSON([]byte(`{"header":{"tag":"MThd","format":1,"PPQN":96},"tracks":[` + strings.TrimSuffix(strings.Repeat(`{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack","delta":0}}]},`, n), ",") + `]}`))
	}
	if err != nil {
		if n <= 65535 {
			return "", fmt.Errorf("%d tracks: %v", n, err)
		}
		return "error", nil
	}
	f, err := wellformed(b)
	if err != nil {
		return "", fmt.Errorf("%d tracks: %v", n, err)
	}
	if len(f.Trk) != n {
		return "", fmt.Errorf("%d source tracks, %d tracks", n, len(f.Trk))
	}
	return "assembled", nil
}

func init() {
	oracle("assemble-text", assembleTextOracle)
	oracle("track-count", trackCountOracle)
	oracle("assemble-json", assembleJSONOracle)
	oracle("structure", structureOracle)
	oracle("leak", leakOracle)
	oracle("read-schedule", readScheduleOracle)
	oracle("interleave", interleaveOracle)
	oracle("together", togetherOracle)
	check(&Check{ID: "P17", Level: "exploration",
		Rule:  "assemble every source of the space: all documents of up to 6 lines over 8 line kinds against a grammar, every byte of every kind of event line replaced by every value, every prefix, deletion, duplication and exchange in whole listings, every value of a JSON document replaced and every member removed; the result is an error or a file that the reference parser accepts with as many tracks and events as the source",
		Assum: []string{"a repeated MThd, indented comments, lines with both MThd and MTrk and text before the MThd are unspecified"},
		Run:   runP17})
	check(&Check{ID: "P23", Level: "exploration",
		Rule:  "assemble each source under every division over read calls with up to two cuts, with a read error at every offset, with an invalid line at every position, and under every interleaving of the read steps of two concurrent assemblies; result against the undivided one, goroutines counted after every run; races between concurrent assemblies by a happens-before monitor (race detector build) over all pairs of sources",
		Assum: []string{"the scheduler is controlled at read calls; inside the pipeline the unbuffered channels leave no choice that the property depends on"},
		Run:   runP23})
}

func mutations(r *R, name, label string, src []byte, subst []byte) {
	r.Par(label+": every prefix", len(src), func(w *W, i int) bool { return w.Case(name, src[:i], "") })
	r.Par(label+": every byte removed or doubled", len(src)*2, func(w *W, i int) bool {
		k := i / 2
		if i%2 == 0 {
			return w.Case(name, cat(src[:k], src[k+1:]), "")
		}
		return w.Case(name, cat(src[:k+1], src[k:]), "")
	})
	r.Par(fmt.Sprintf("%s: every byte replaced by %d values", label, len(subst)), len(src)*len(subst), func(w *W, i int) bool {
		b := append([]byte{}, src...)
		b[i/len(subst)] = subst[i%len(subst)]
		return w.Case(name, b, "")
	})
}

func runP17(r *R) {
	k := len(docLines)
	n := ifelse(r.Thorough(), 7, 6)
	for _, arg := range []string{"", "crlf", "open"} {
		if arg != "" {
			n = min(n, 5)
		}
		r.Par(fmt.Sprintf("all documents of up to %d lines over %d line kinds %s", n, k, arg), words(k, n), func(w *W, i int) bool {
			var buf [8]int
			b := []byte{}
			for _, x := range word(k, i, buf[:]) {
				b = append(b, byte(x))
			}
			return w.Case("structure", b, arg)
		})
	}
	texts := append(trickyTexts(), "%%", "100%% x", "x %% y", "MTrk", "MTrk 1", "MThd format:1", "delta:5", "delta:5 2F EndOfTrack", "EndOfTrack", "2F EndOfTrack", "NoteOn channel:99", "//", "#", ";", "--", "...", "<unknown>")
	r.Par("texts that look like something else", len(texts)*9, func(w *W, i int) bool {
		t, k := texts[i/9], Kind(0)
		for _, x := range strings.Split(t, "") {
			if x < " " || x == "\x7f" || !utf8.ValidString(x) {
				return true
			}
		}
		k = []Kind{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName}[i%9]
		line := fmt.Sprintf("  tick:0 delta:1 %02X %s %s", i%9+1, k, t)
		return w.Case("assemble-text", []byte(strings.Join([]string{docLines[0], docLines[1], docLines[2], line, docLines[2], line, docLines[3], docLines[1], line, docLines[3]}, "\n")), "")
	})
	all := pattern(256, func(i int) byte { return byte(i) })
	some := []byte("\n\x00 :,/0179-ACtM%\xff\x80\"{")
	if r.Thorough() {
		some = all
	}
	r.Par("every division and format", 65536+300, func(w *W, i int) bool {
		f, d := i%3, i
		if i >= 65536 {
			f, d = i-65536, 96
		}
		return w.Case("assemble-text", []byte(fmt.Sprintf("MThd length:6, format:%d, tracks:1, metrical time:%d ppqn\nMTrk\n delta:0 2F EndOfTrack\n", f, d)), "") &&
			w.Case("assemble-json", []byte(fmt.Sprintf(`{"header":{"tag":"MThd","format":%d,"PPQN":%d},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack"}}]}]}`, f, d)), "") &&
			w.Case("assemble-json", []byte(fmt.Sprintf(`{"header":{"tag":"MThd","format":%d,"PPQN":0,"SMPTETimeCode":true,"Division":%d},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack"}}]}]}`, f, d)), "")
	})
	// text: each kind of line
	lines := eventLines()
	head := "MThd format:1 metrical time:96 ppqn\nMTrk\n"
	tail := "\n delta:0 2F EndOfTrack\n"
	for _, l := range lines {
		r.Par("text line, every byte replaced: "+l, len(l)*256, func(w *W, i int) bool {
			b := []byte(l)
			b[i/256] = byte(i)
			return w.Case("assemble-text", []byte(head+string(b)+tail), "")
		})
		r.Par("text line, tokens: "+l, 1, func(w *W, i int) bool {
			fs := strings.Fields(l)
			for a := range fs {
				for b := a; b <= len(fs); b++ { // remove a..b, repeat a..b, move a to b
					x := append(append([]string{}, fs[:a]...), fs[b:]...)
					y := append(append(append([]string{}, fs[:b]...), fs[a:b]...), fs[b:]...)
					z := append(append([]string{}, fs[:a]...), fs[a+1:]...)
					if b < len(z) {
						z = append(append(append([]string{}, z[:b]...), fs[a]), z[b:]...)
					}
					for _, v := range [][]string{x, y, z} {
						if !w.Case("assemble-text", []byte(head+"  "+strings.Join(v, " ")+tail), "") {
							return false
						}
					}
				}
			}
			return true
		})
	}
	// every event tag with the rest of every line
	r.Par("text: tags exchanged", len(lines)*int(nKinds), func(w *W, i int) bool {
		l := lines[i/int(nKinds)]
		fs := strings.Fields(l)
		fs[3] = Kind(i % int(nKinds)).String()
		return w.Case("assemble-text", []byte(head+"  "+strings.Join(fs, " ")+tail), "") &&
			w.Case("assemble-text", []byte(head+"  "+strings.ToLower(strings.Join(fs, " "))+tail), "") &&
			w.Case("assemble-text", []byte(head+"  "+strings.Join(fs[:4], " ")+tail), "")
	})
	// whole listings
	doc := textOf(fileN(1, 480, tempoTrack(), everything()))
	if r.Thorough() {
		mutations(r, "assemble-text", "listing", []byte(doc), some)
	} else {
		mutations(r, "assemble-text", "listing", []byte(textOf(fileN(1, 480, tempoTrack(), melody(3)))), some)
		r.Par("long listing: every prefix", len(doc), func(w *W, i int) bool { return w.Case("assemble-text", []byte(doc[:i]), "") })
	}
	ls := strings.Split(doc, "\n")
	r.Par("listing: every line removed, doubled, exchanged with every other", len(ls)*len(ls), func(w *W, i int) bool {
		a, b := i/len(ls), i%len(ls)
		x := append([]string{}, ls...)
		x[a], x[b] = x[b], x[a]
		if !w.Case("assemble-text", []byte(strings.Join(x, "\n")), "") {
			return false
		}
		if a <= b { // lines a..b removed, doubled
			x = append(append([]string{}, ls[:a]...), ls[b+1:]...)
			y := append(append([]string{}, ls[:b+1]...), ls[a:]...)
			return w.Case("assemble-text", []byte(strings.Join(x, "\n")), "") && w.Case("assemble-text", []byte(strings.Join(y, "\n")), "")
		}
		return true
	})
	bad := []string{"x", "  tick:0 delta:0", "  delta:0 00", "  delta: EndOfTrack", "  tick:0 delta:0 2F EndOfTrac", "  tick:0 delta:-1 2F EndOfTrack", "EndOfTrack", " delta:0 99 Unknown 1 2 3", "MThd", "MTrk", "\x00", "%%", "% x", "  delta:99999999999 2F EndOfTrack", "{}", strings.Repeat("y", 70000)}
	r.Par("listing: a line inserted at every position", len(ls)*len(bad), func(w *W, i int) bool {
		a := i / len(bad)
		x := append(append(append([]string{}, ls[:a]...), bad[i%len(bad)]), ls[a:]...)
		return w.Case("assemble-text", []byte(strings.Join(x, "\n")), "")
	})
	r.Par("short texts", 1+256+65536, func(w *W, i int) bool {
		b := []byte{}
		if i > 0 {
			b = append(b, byte(i-1))
		}
		if i > 256 {
			b = []byte{byte((i - 257) >> 8), byte(i - 257)}
		}
		return w.Case("assemble-text", b, "") && w.Case("assemble-json", b, "")
	})
	// JSON
	objs := eventObjects()
	jhead, jtail := `{"header":{"tag":"MThd","format":1,"PPQN":96},"tracks":[{"tag":"MTrk","events":[`, `,{"event":{"tag":"EndOfTrack","delta":0}}]}]}`
	jsub := []byte("\x00 \"{}[],:019-.eEtnx\\\xff")
	if r.Thorough() {
		jsub = all
	}
	for _, o := range objs {
		r.Par("JSON event, bytes: "+trim(o, 40), len(o)*len(jsub), func(w *W, i int) bool {
			b := []byte(o)
			b[i/len(jsub)] = jsub[i%len(jsub)]
			return w.Case("assemble-json", []byte(jhead+string(b)+jtail), "")
		})
		r.Par("JSON event, removed bytes: "+trim(o, 40), len(o), func(w *W, i int) bool {
			return w.Case("assemble-json", []byte(jhead+o[:i]+o[i+1:]+jtail), "")
		})
		vs := jsonVariants(o)
		r.Par("JSON event, values: "+trim(o, 40), len(vs), func(w *W, i int) bool {
			return w.Case("assemble-json", []byte(jhead+vs[i]+jtail), "tags")
		})
	}
	r.Par("JSON: tags exchanged", len(objs)*int(nKinds), func(w *W, i int) bool {
		var m map[string]map[string]any
		json.Unmarshal([]byte(objs[i/int(nKinds)]), &m)
		m["event"]["tag"] = Kind(i % int(nKinds)).String()
		b, _ := json.Marshal(m)
		m["event"]["tag"] = strings.ToUpper(Kind(i % int(nKinds)).String())
		c, _ := json.Marshal(m)
		return w.Case("assemble-json", []byte(jhead+string(b)+jtail), "tags") && w.Case("assemble-json", []byte(jhead+string(c)+jtail), "")
	})
	small := string(jsonOf(fileN(1, 480, tempoTrack(), melody(3))))
	mutations(r, "assemble-json", "JSON document", []byte(small), jsub)
	vs := jsonVariants(small)
	r.Par("JSON document, values", len(vs), func(w *W, i int) bool { return w.Case("assemble-json", []byte(vs[i]), "tags") })
	for _, deep := range []int{100, 9999, 10001, 200000} {
		d := deep
		r.Par("deep nesting", 3, func(w *W, i int) bool {
			return w.Case("assemble-json", []byte(strings.Repeat([]string{"[", `{"tracks":[`, `{"header":{"tag":`}[i], d)), "")
		})
	}
	counts := []int{}
	for i := 0; i <= 300; i++ {
		counts = append(counts, i)
	}
	counts = append(counts, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073)
	r.Par("number of tracks, text and JSON", 2*len(counts), func(w *W, i int) bool {
		return w.Case("track-count", []byte{byte(i % 2)}, strconv.Itoa(counts[i/2]))
	})
	// what is left behind
	r.Seq("goroutines left behind: documents of up to 4 lines", words(k, ifelse(r.Thorough(), 5, 4)), func(w *W, i int) bool {
		var buf [8]int
		x := []string{}
		for _, c := range word(k, i, buf[:]) {
			x = append(x, docLines[c])
		}
		return w.Case("leak", []byte(strings.Join(x, "\n")), "text")
	})
	r.Seq("goroutines left behind: JSON values", len(vs), func(w *W, i int) bool {
		return i%7 != 0 || w.Case("leak", []byte(vs[i]), "json")
	})
	r.Sample(lines[3])
	r.Sample(objs[3])
}

// A JSON text with every value replaced by each of a set of values, every member removed or renamed, every
// array element removed or doubled.
func jsonVariants(s string) []string {
	var root any
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&root); err != nil {
		panic(err)
	}
	repl := []any{nil, true, false, json.Number("0"), json.Number("-1"), json.Number("1"), json.Number("127"), json.Number("128"), json.Number("255"), json.Number("256"), json.Number("65536"), json.Number("1e99"), json.Number("0.5"), "", "x", "MTrk", "MThd", "NoteOn", []any{}, []any{nil}, map[string]any{}, map[string]any{"tag": "NoteOn"}}
	out := []string{}
	emit := func() {
		b, err := json.Marshal(root)
		if err != nil {
			panic(err)
		}
		out = append(out, string(b))
	}
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		for _, x := range repl {
			set(x)
			emit()
		}
		set(v)
		switch t := v.(type) {
		case map[string]any:
			keys := []string{}
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				x := t[k]
				delete(t, k)
				emit()
				t["x"+k] = x
				emit()
				delete(t, "x"+k)
				t[k] = x
				walk(x, func(y any) { t[k] = y })
			}
		case []any:
			for i := range t {
				set(append(append([]any{}, t[:i]...), t[i+1:]...))
				emit()
				set(append(append([]any{}, t[:i+1]...), t[i:]...))
				emit()
				set(v)
				x := t[i]
				walk(x, func(y any) { t[i] = y })
			}
		}
	}
	walk(root, func(y any) { root = y })
	return out
}

// ---- P23

func readScheduleOracle(in []byte, arg string) (string, error) {
	want, werr := assembleText(string(in))
	s, fails := parseReader(in, arg)
	got, err := assemble.NewTextAssembler().Assemble(s)
	if fails {
		if err == nil {
			return "", fmt.Errorf("a read error at offset %d was not reported: % X", s.failAt, clip(got))
		}
		if len(got) > 0 {
			return "", fmt.Errorf("a file of %d bytes with the error", len(got))
		}
		return "read error reported", nil
	}
	if (err == nil) != (werr == nil) || !bytes.Equal(got, want) {
		return "", fmt.Errorf("read in one piece: %v % X; divided: %v % X", werr, clip(want), err, clip(got))
	}
	return ifelse(err == nil, "same", "same error"), nil
}

// A reader that hands out one segment each time it is released.
type gate struct {
	segs [][]byte
	ask  chan struct{} // a read is waiting
	give chan struct{}
	buf  []byte
}

func (g *gate) Read(p []byte) (int, error) {
	if len(g.buf) == 0 {
		g.ask <- struct{}{}
		<-g.give
		if len(g.segs) == 0 {
			return 0, io.EOF
		}
		g.buf, g.segs = g.segs[0], g.segs[1:]
	}
	n := copy(p, g.buf)
	g.buf = g.buf[n:]
	return n, nil
}

type outcome struct {
	b   []byte
	err error
}

// Two assemblies whose read steps are interleaved as the bits of the schedule say. arg: schedule, segments of
// each source; input: the sources, separated by a 0 byte.
func interleaveOracle(in []byte, arg string) (string, error) {
	var sched uint64
	var segs int
	fmt.Sscanf(arg, "%x %d", &sched, &segs)
	src := bytes.SplitN(in, []byte{0}, 2)
	gs, res := [2]*gate{}, [2]chan outcome{}
	wait := [2]bool{} // a read is waiting to be released
	done := [2]bool{}
	out := [2]outcome{}
	for i := range gs {
		g := &gate{ask: make(chan struct{}), give: make(chan struct{})}
		n := (len(src[i]) + segs - 1) / segs
		for k := 0; k < len(src[i]); k += n {
			g.segs = append(g.segs, src[i][k:min(k+n, len(src[i]))])
		}
		gs[i], res[i] = g, make(chan outcome, 1)
		go func() {
			b, err := assemble.NewTextAssembler().Assemble(g)
			res[i] <- outcome{b, err}
		}()
	}
	settle := func(i int) { // until assembly i waits for a read or is done
		if done[i] || wait[i] {
			return
		}
		select {
		case <-gs[i].ask:
			wait[i] = true
		case out[i] = <-res[i]:
			done[i] = true
		}
	}
	settle(0)
	settle(1)
	for step := 0; !done[0] || !done[1]; step++ {
		i := int(sched >> (step % 64) & 1)
		if done[i] {
			i = 1 - i
		}
		wait[i] = false
		gs[i].give <- struct{}{}
		settle(i)
	}
	for i := range out {
		b, err := assembleText(string(src[i]))
		if (err == nil) != (out[i].err == nil) || !bytes.Equal(b, out[i].b) || err != nil && err.Error() != out[i].err.Error() {
			return "", fmt.Errorf("assembly %d alone: %v % X; with the other: %v % X", i, err, clip(b), out[i].err, clip(out[i].b))
		}
	}
	return fmt.Sprintf("%v %v", out[0].err == nil, out[1].err == nil), nil
}

// Several assemblies at the same time, not synchronised. input: sources separated by 0 bytes
func togetherOracle(in []byte, arg string) (string, error) {
	n, _ := strconv.Atoi(arg)
	src := bytes.Split(in, []byte{0})
	want := make([]outcome, len(src))
	for i, s := range src {
		want[i].b, want[i].err = assembleText(string(s))
	}
	var wg sync.WaitGroup
	errs := make(chan error, n)
	start := make(chan struct{})
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Errorf("panic: %v", x)
				}
			}()
			i := k % len(src)
			<-start
			b, err := assembleText(string(src[i]))
			if (err == nil) != (want[i].err == nil) || !bytes.Equal(b, want[i].b) {
				errs <- fmt.Errorf("source %d alone: %v % X; with others: %v % X", i, want[i].err, clip(want[i].b), err, clip(b))
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case e := <-errs:
		return "", e
	default:
		return "same", nil
	}
}

func sources() []string {
	line := func(ls ...string) string { return strings.Join(ls, "\n") + "\n" }
	return []string{
		line(docLines[0], "", docLines[1], docLines[2], docLines[3]),
		line("MThd format:0 metrical time:480 ppqn", "MTrk", " delta:0 03 TrackName Moonlight sonata", " delta:7 92 NoteOn channel:2 note:G♯3, velocity:100", " delta:96 82 NoteOff channel:2 note:G♯3, velocity:1", " delta:0 2F EndOfTrack"),
		textOf(fileN(1, 96, tempoTrack(), melody(4), melody(9))),
		line(docLines[0], docLines[1], docLines[2], docLines[4], docLines[2], docLines[3]),
		line(docLines[1], docLines[2]),
		line(docLines[0], docLines[1], " delta:0 05 Lyric "+strings.Repeat("la ", 60), docLines[3]),
		line(docLines[0], docLines[1], " delta:0 F0 SysExMessage Yamaha, 12 00", " delta:5 F7 SysExContinuation 43 12 00", " delta:0 FF Nonsense", docLines[3]),
		"",
	}
}

func runP23(r *R) {
	ss := sources()
	for i, s := range ss {
		n := len(s)
		label := fmt.Sprintf("source %d (%d bytes)", i, n)
		r.Par(label+": every read error offset", (n+1)*(2+len(ioErrorNames)), func(w *W, k int) bool {
			m := 2 + len(ioErrorNames)
			arg := fmt.Sprintf("fail=%d", k/m)
			switch {
			case k%m == 1:
				arg += " with"
			case k%m > 1:
				arg += " err=" + ioErrorNames[k%m-2]
			}
			return w.Case("read-schedule", []byte(s), arg)
		})
		r.Par(label+": every segment size", n*3, func(w *W, k int) bool {
			return w.Case("read-schedule", []byte(s), fmt.Sprintf("every=%d %s", k/3+1, []string{"", "zero", "last"}[k%3]))
		})
		if n < ifelse(r.Thorough(), 1500, 330) {
			r.Par(label+": every pair of cuts", n*n, func(w *W, k int) bool {
				a, b := k/n, k%n
				return a > b || w.Case("read-schedule", []byte(s), fmt.Sprintf("cuts=%d,%d %s", a, b, ifelse(k%2 == 0, "last", "")))
			})
		} else {
			r.Par(label+": every cut", n*2, func(w *W, k int) bool {
				return w.Case("read-schedule", []byte(s), fmt.Sprintf("cuts=%d %s", k/2, ifelse(k%2 == 0, "last", "")))
			})
		}
		r.Seq(label+": goroutines after a read error at every offset", n+1, func(w *W, k int) bool {
			return k%ifelse(n > 1000 && !r.Thorough(), 5, 1) != 0 || w.Case("leak", []byte(s), fmt.Sprintf("read fail=%d every=40", k))
		})
	}
	// read errors inside long lines and large documents
	big := ss[0] + strings.Repeat(docLines[2]+"\n", 3000)
	r.Par("large source: read errors and segments", 120, func(w *W, k int) bool {
		return w.Case("read-schedule", []byte(big), fmt.Sprintf("fail=%d", k*len(big)/120)) && w.Case("read-schedule", []byte(big), fmt.Sprintf("every=%d", 1+k*k))
	})
	// an invalid line at every position, with and without the header
	doc := strings.Split(ss[2], "\n")
	bad := []string{docLines[4], docLines[5], " delta:0 2F EndOfTrac", "MTrk MThd", " delta:0"}
	r.Seq("goroutines: an invalid line at every position", (len(doc)+1)*len(bad), func(w *W, i int) bool {
		a := i / len(bad)
		x := append(append(append([]string{}, doc[:a]...), bad[i%len(bad)]), doc[a:]...)
		return w.Case("leak", []byte(strings.Join(x, "\n")), "text")
	})
	k := len(docLines)
	r.Seq("goroutines: documents of up to 5 lines", words(k, ifelse(r.Thorough(), 6, 5)), func(w *W, i int) bool {
		var buf [8]int
		x := []string{}
		for _, c := range word(k, i, buf[:]) {
			x = append(x, docLines[c])
		}
		return w.Case("leak", []byte(strings.Join(x, "\n")), "text")
	})
	// two assemblies: all interleavings of their reads (5 segments and the end each)
	segs := ifelse(r.Thorough(), 6, 4)
	steps := 2 * (segs + 2)
	scheds := []uint64{}
	for x := uint64(0); x < 1<<steps; x++ {
		n := 0
		for b := x; b > 0; b &= b - 1 {
			n++
		}
		if n == steps/2 {
			scheds = append(scheds, x)
		}
	}
	pairs := [][2]int{}
	for a := range ss {
		for b := range ss {
			if a <= b && len(ss[a]) < 400 && len(ss[b]) < 400 {
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	r.Par(fmt.Sprintf("two assemblies: all %d interleavings of their reads x %d pairs of sources", len(scheds), len(pairs)), len(scheds)*len(pairs), func(w *W, i int) bool {
		p := pairs[i%len(pairs)]
		r.transitions.Add(int64(steps))
		return w.Case("interleave", []byte(ss[p[0]]+"\x00"+ss[p[1]]), fmt.Sprintf("%x %d", scheds[i/len(pairs)], segs))
	})
	r.states.Store(int64(len(scheds)))
	r.Seq("concurrent assemblies", len(ss)*len(ss)*4, func(w *W, i int) bool {
		return w.Case("together", []byte(ss[i/4%len(ss)]+"\x00"+ss[i/4/len(ss)]), "16")
	})
	raceRun(r, "race-text", len(ss))
	raceRun(r, "race-first-text", len(ss))
	r.Sample(ss[1])
}
