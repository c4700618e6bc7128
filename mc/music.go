package main

// Transposition (P10), note pairing (P11), note times (P12) and validation (P14).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- P10

func clampNote(v int) int { return max(0, min(127, v)) }

func tonic(acc, typ int32) int { return int(((acc*7+typ*9)%12 + 12) % 12) }

// The transposed file against the source.
func diffTransposed(want, got *File, n int) error {
	w := *want
	w.Trk = nil
	for i := range want.Trk {
		trk := append([]Ev{}, want.Trk[i]...)
		for k := range trk {
			e := &trk[k]
			switch e.Kind {
			case kNoteOn, kNoteOff:
				// n may be any int
				switch {
				case n > 127:
					e.V[0] = 127
				case n < -127:
					e.V[0] = 0
				default:
					e.V[0] = int32(clampNote(int(e.V[0]) + n))
				}
			case kKeySignature:
				if i < len(got.Trk) && k < len(got.Trk[i]) && got.Trk[i][k].Kind == kKeySignature {
					g := &got.Trk[i][k]
					t := (tonic(e.V[0], e.V[1]) + n%12 + 12) % 12
					if g.V[1] != e.V[1] {
						return fmt.Errorf("track %d event %d: %s transposed by %d changes the type: %s", i, k, e.S, n, g.S)
					}
					if tonic(g.V[0], g.V[1]) != t {
						return fmt.Errorf("track %d event %d: %s transposed by %d gives %s", i, k, e.S, n, g.S)
					}
					e.V, e.S = g.V, g.S
				}
			}
		}
		w.Trk = append(w.Trk, trk)
	}
	return diffFile(&w, got, cmpNoNames)
}

// arg: steps
func transposeOracle(in []byte, arg string) (string, error) {
	n, err := strconv.Atoi(arg)
	if err != nil {
		return "", err
	}
	c, smf, want, err := decodeCheck(in)
	if err != nil || smf == nil {
		return "decode " + c, err
	}
	b, err := transposed(smf, n)
	if err != nil {
		return "", fmt.Errorf("transposing failed: %v", err)
	}
	got, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if err := diffTransposed(want, got, n); err != nil {
		return "", err
	}
	if !bytes.Equal(b[:14], in[:14]) {
		return "", fmt.Errorf("the header changed: % X to % X", in[:14], b[:14])
	}
	// and back, from the file
	if n > -200 && n < 200 {
		limit := false
		for _, t := range want.Trk {
			for i := range t {
				if k := t[i].Kind; (k == kNoteOn || k == kNoteOff) && clampNote(int(t[i].V[0])+n) != int(t[i].V[0])+n {
					limit = true
				}
			}
		}
		if !limit {
			s, err := decode(b)
			if err != nil {
				return "", err
			}
			b, err := transposed(s, -n)
			if err != nil {
				return "", err
			}
			got, err := wellformed(b)
			if err != nil {
				return "", err
			}
			if err := diffTransposed(want, got, 0); err != nil {
				return "", fmt.Errorf("transposed by %d and then %d: %v", n, -n, err)
			}
			// in memory
			b2, err := transposed(smf, -n)
			if err != nil {
				return "", err
			}
			got, err = wellformed(b2)
			if err != nil {
				return "", err
			}
			if err := diffTransposed(want, got, 0); err != nil {
				return "", fmt.Errorf("transposed in memory by %d and then %d: %v", n, -n, err)
			}
			return "and back", nil
		}
	}
	return "limited", nil
}

func runP10(r *R) {
	programCases(r, programLines("transpose --semitones 0|out", "transpose|out", "transpose --semitones 1|out", "transpose --semitones -1|out", "transpose --semitones 12|out", "transpose --semitones -12|out", "transpose --semitones 13|out", "transpose --semitones -25|out", "transpose --semitones 127|out", "transpose --semitones -128|out", "transpose --semitones 300|out", "transpose --semitones=6|out")...)
	all := []byte{}
	for n := byte(0); n < 128; n++ {
		all = append(all, ch(1, 0x90|n%16, n, 1+n%127)...)
		all = append(all, ch(2, 0x80|n%16, n, n)...)
	}
	r.Par("every note x every interval -300..300", 601, func(w *W, i int) bool { return w.Case("transpose", file1(all, eot), strconv.Itoa(i-300)) })
	keys := []byte{}
	for i := 0; i < 30; i++ {
		keys = append(keys, meta(1, 0x59, []byte{byte(int8(i/2 - 7)), byte(i % 2)})...)
	}
	r.Par("every key signature x every interval -300..300", 601, func(w *W, i int) bool { return w.Case("transpose", file1(keys, eot), strconv.Itoa(i-300)) })
	r.Par("every key x interval x note", 30*49, func(w *W, i int) bool {
		k := i % 30
		return w.Case("transpose", file1(meta(0, 0x59, []byte{byte(int8(k/2 - 7)), byte(k % 2)}), all, eot), strconv.Itoa(i/30-24))
	})
	ext := []int{math.MaxInt32, math.MinInt32, 1000, -1000, 256, -256, 255, 128, 127, 126, -126, -127, -128}
	r.Par("extreme intervals", len(ext), func(w *W, i int) bool {
		return w.Case("transpose", file1(all, eot), strconv.Itoa(ext[i])) && (ext[i] > 1<<40 || ext[i] < -1<<40 || w.Case("transpose", fileN(0, 96, everything()), strconv.Itoa(ext[i])))
	})
	c := corpus()
	r.Par("corpus x interval -40..40", len(c)*81, func(w *W, i int) bool { return w.Case("transpose", c[i%len(c)].B, strconv.Itoa(i/len(c)-40)) })
	for _, d := range domains() {
		for _, n := range ifelse(d.Kind == kNoteOn || d.Kind == kNoteOff, []int{0, 1, -1, 5, 12, -60, 127}, []int{0, 7, -7}) {
			sweepArg(r, "transpose", d, 512, strconv.Itoa(n))
		}
	}
	for _, n := range []int{0, 1, -2, 12, 100} {
		seqs(r, "transpose-body", alphabet(), ifelse(r.Thorough() || n == 1 || n == -2, 3, 2), strconv.Itoa(n))
	}
	ts := [][]byte{tempoTrack(), melody(0), everything(), melody(15), nil}
	r.Par("track orders x formats", 125*3, func(w *W, i int) bool {
		return w.Case("transpose", fileN(i/125, ifelse(i%2 == 0, 96, 0xe728), ts[i%5], ts[i/5%5], ts[i/25%5]), strconv.Itoa(i%25-12))
	})
	deltaCases(r, "transpose-body", "-3")
	deltaCross(r, "transpose-body", "3", asIs, [][]byte{ch(0, 0x90, 60, 1), ch(0, 0x80, 60, 1), ch(0, 0xa0, 60), meta(0, 0x2f, nil)}, [][]byte{ch(0, 0x95, 60, 1), ch(0, 60, 0), ch(0, 126, 1), ch(0, 126, 0)})
	scaleCases(r, r.Par, "transpose", "2", 4096)
	if r.Thorough() {
		extremeTriples(r, "transpose-body", "-1", cat)
	}
	rawTextCases(r, r.Par, "transpose", "2")
	r.Sample(map[string]string{"notes": "0..127 on all channels", "intervals": "-300..300"})
}

// ---- P11, P12: the reference

type rnote struct {
	ch, key, vel int
	name         string
	start, end   uint64 // ticks
	t0, t1       float64
}

type tempoAt struct {
	tick  uint64
	tempo uint64
}

// Seconds at a tick: the integral over the ticks with the tempo in effect at each.
func timeAt(m []tempoAt, ppqn uint64, tick uint64) float64 {
	sum, at, tempo := 0.0, uint64(0), uint64(500000)
	for _, t := range m {
		if t.tick >= tick {
			break
		}
		sum += float64(t.tick-at) * float64(tempo)
		at, tempo = t.tick, t.tempo
	}
	sum += float64(tick-at) * float64(tempo)
	return sum / float64(ppqn) / 1e6
}

// The notes of a file; nil for files on which the property has nothing to say.
func refNotes(f *File, steps int) ([]rnote, bool) {
	if len(f.Trk) == 0 {
		return nil, true
	}
	m := []tempoAt{}
	for _, e := range f.Trk[0] {
		if e.Kind == kTempo {
			m = append(m, tempoAt{e.Tick, uint64(e.V[0])})
		}
	}
	trks := f.Trk[1:]
	if f.Format == 0 {
		if len(f.Trk) > 1 {
			return nil, false
		}
		trks = f.Trk
	}
	out := []rnote{}
	for _, t := range trks {
		type k struct{ c, n int }
		on := map[k]rnote{}
		flats := false
		ended := false
		end := func(key k, tick uint64) {
			if n, ok := on[key]; ok {
				n.end = tick
				n.t0, n.t1 = timeAt(m, uint64(f.Division), n.start), timeAt(m, uint64(f.Division), n.end)
				out = append(out, n)
				delete(on, key)
			}
		}
		for i := range t {
			e := &t[i]
			key := k{int(e.Ch), int(e.V[0])}
			switch {
			case e.Kind == kTempo && f.Format != 0:
				return nil, false // a tempo in a track where it does not belong
			case e.Kind == kKeySignature:
				flats = e.V[0] < 0
			case e.Kind == kNoteOn && e.V[1] > 0:
				if _, ok := on[key]; !ok {
					p := clampNote(key.n + steps)
					on[key] = rnote{ch: key.c, key: p, vel: int(e.V[1]), start: e.Tick, name: noteName(p, flats, refBase)}
				}
			case e.Kind == kNoteOn, e.Kind == kNoteOff:
				end(key, e.Tick)
			case e.Kind == kEndOfTrack:
				for x := range on {
					end(x, e.Tick)
				}
				ended = i == len(t)-1
			}
		}
		if len(on) > 0 && !ended {
			return nil, false // notes that nothing ends
		}
	}
	return out, true
}

var noteLine = regexp.MustCompile(`^(\S+) +channel:(\d+) +note:([0-9A-F]{2}) +velocity:(\d+) +start:(\S+) +end:(\S+) +duration:(\S+)$`)

// A note of the text or JSON list.
type lnote struct {
	ch, key, vel int
	name         string
	t0, t1, d    float64
}

func parseNotes(b []byte) ([]lnote, error) {
	out := []lnote{}
	for _, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		m := noteLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		n := lnote{name: m[1]}
		n.ch, _ = strconv.Atoi(m[2])
		k, _ := strconv.ParseInt(m[3], 16, 32)
		n.key = int(k)
		n.vel, _ = strconv.Atoi(m[4])
		for i, p := range []*float64{&n.t0, &n.t1, &n.d} {
			d, err := time.ParseDuration(m[5+i])
			if err != nil {
				return nil, fmt.Errorf("line %q: %v", l, err)
			}
			*p = d.Seconds()
		}
		out = append(out, n)
	}
	return out, nil
}

func parseNotesJSON(b []byte) ([]lnote, error) {
	x := struct {
		Notes []struct {
			Channel  int     `json:"channel"`
			MidiNote int     `json:"midi-note"`
			Note     string  `json:"note"`
			Velocity int     `json:"velocity"`
			Start    float64 `json:"start"`
			End      float64 `json:"end"`
			Duration float64 `json:"duration"`
		} `json:"notes"`
	}{}
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	out := []lnote{}
	for _, n := range x.Notes {
		out = append(out, lnote{n.Channel, n.MidiNote, n.Velocity, n.Note, n.Start, n.End, n.Duration})
	}
	return out, nil
}

const noteTol = 0.00101

func diffNotes(want []rnote, got []lnote, times bool) error {
	w := append([]rnote{}, want...)
	g := append([]lnote{}, got...)
	// order: channel, key, start
	sort.SliceStable(w, func(i, j int) bool {
		a, b := w[i], w[j]
		if a.ch != b.ch {
			return a.ch < b.ch
		}
		if a.key != b.key {
			return a.key < b.key
		}
		if a.vel != b.vel {
			return a.vel < b.vel
		}
		if a.name != b.name {
			return a.name < b.name
		}
		return a.t0 < b.t0
	})
	sort.SliceStable(g, func(i, j int) bool {
		a, b := g[i], g[j]
		if a.ch != b.ch {
			return a.ch < b.ch
		}
		if a.key != b.key {
			return a.key < b.key
		}
		if a.vel != b.vel {
			return a.vel < b.vel
		}
		if a.name != b.name {
			return a.name < b.name
		}
		return a.t0 < b.t0
	})
	if len(w) != len(g) {
		return fmt.Errorf("expected %d notes, got %d\n  expected %+v\n  got      %+v", len(w), len(g), w, g)
	}
	for i := range w {
		a, b := w[i], g[i]
		if a.ch != b.ch || a.key != b.key || a.vel != b.vel || a.name != b.name {
			return fmt.Errorf("expected note %+v, got %+v", a, b)
		}
		if !times {
			continue
		}
		eps := noteTol + 1e-12*math.Abs(a.t1)
		if math.Abs(a.t0-b.t0) > eps || math.Abs(a.t1-b.t1) > eps || math.Abs(a.t1-a.t0-b.d) > eps {
			return fmt.Errorf("expected note %+v (duration %v), got %+v", a, a.t1-a.t0, b)
		}
	}
	return nil
}

// arg: "mode steps"
func notesOracle(in []byte, arg string) (string, error) {
	mode, st, _ := strings.Cut(arg, " ")
	setMiddleC(mode)
	steps, _ := strconv.Atoi(st)
	c, smf, f, err := decodeCheck(in)
	if err != nil || smf == nil {
		return "decode " + c, err
	}
	text, err1 := noteList(smf, steps, false)
	js, err2 := noteList(smf, steps, true)
	if f.Division >= 0x8000 {
		if err1 == nil || err2 == nil {
			return "", fmt.Errorf("a file without a metrical division gives a note list")
		}
		return "not metrical", nil
	}
	if f.Division == 0 {
		return "division 0", nil
	}
	want, ok := refNotes(f, steps)
	if !ok {
		return "unspecified", nil
	}
	if err1 != nil || err2 != nil {
		return "", fmt.Errorf("no note list: %v, %v", err1, err2)
	}
	if len(want) > 0 && want[len(want)-1].t1 > 8e9 { // beyond the range of time.Duration
		return "longer than 250 years", nil
	}
	for _, n := range want {
		if n.t1 > 8e9 {
			return "longer than 250 years", nil
		}
	}
	got, err := parseNotes(text)
	if err != nil {
		return "", err
	}
	if err := diffNotes(want, got, true); err != nil {
		return "", err
	}
	got, err = parseNotesJSON(js)
	if err != nil {
		return "", err
	}
	if err := diffNotes(want, got, true); err != nil {
		return "", fmt.Errorf("JSON: %v", err)
	}
	return fmt.Sprintf("%d notes", min(len(want), 9)), nil
}

func init() {
	oracle("transpose", transposeOracle)
	oracle("transpose-body", func(in []byte, arg string) (string, error) { return transposeOracle(file1(in), arg) })
	oracle("notes", notesOracle)
	oracle("notes-body", func(in []byte, arg string) (string, error) {
		return notesOracle(file1(in, []byte{7, 0xff, 0x2f, 0}), arg)
	})
	oracle("notes-track", func(in []byte, arg string) (string, error) {
		return notesOracle(fileN(1, 96, tempoTrack(), cat(in, []byte{7, 0xff, 0x2f, 0})), arg)
	})
	oracle("validate", validateOracle)

	check(&Check{ID: "P10", Level: "exploration",
		Rule: "transpose every file of the space by every interval of the space; the result is parsed by the reference parser and compared with the source moved by the interval, and with the source after transposing back",
		Run:  runP10})
	check(&Check{ID: "P11", Level: "model_checking",
		Rule:  "all reachable states of a model of the sounding notes (two channels x two keys) with every transition replayed on the real note extraction (text and JSON), and all event sequences up to the bound, compared with the reference note list",
		Assum: []string{"the order of the list is not part of the property", "a sounding note at the end of a track without an end of track event is outside the space", "notes in track 0 of a format 1 or 2 file are not notes of a note track"},
		Run:   runP11})
	check(&Check{ID: "P12", Level: "model_checking",
		Rule:  "all tempo maps of up to 3 (quick) or 4 (thorough) tempo events on a grid of ticks with notes over every interval of the grid, for both formats and several divisions: every model state (tempo in effect, tick) is compared with the real note times; all divisions and all tempos for a fixed note",
		Assum: []string{"a tempo event in a note track of a format 1 file is outside the space", "times beyond 250 years are outside the space"},
		Run:   runP12})
	check(&Check{ID: "P14", Level: "exploration",
		Rule:  "validate every file of the space: all sequences of structural events up to the bound in one track, in track 0 and in a later track, for every format; the problems per track and category against the reference",
		Assum: []string{"the wording after the first parenthesis is not part of the property"},
		Run:   runP14})
}

// ---- P11

func runP11(r *R) {
	programCases(r, "notes|stdout", "notes|out", "notes --json|stdout", "notes --json|out")
	// model: sounding flags of (channel 0|1) x (key 60|61)
	type st struct{ s [4]bool }
	type ev struct {
		b    []byte
		kind int // 0 on, 1 off, 2 on v0, 3 other
		i    int
	}
	evs := []ev{}
	for i := 0; i < 4; i++ {
		c, k := byte(i/2), byte(60+i%2)
		evs = append(evs, ev{ch(3, 0x90|c, k, byte(10+i)), 0, i}, ev{ch(2, 0x80|c, k, 5), 1, i}, ev{ch(4, 0x90|c, k, 0), 2, i}, ev{ch(1, 0x90|c, k, 127), 0, i})
	}
	evs = append(evs, ev{meta(5, 1, []byte("x")), 3, 0}, ev{ch(0, 0xb0, 123, 0), 3, 0}, ev{ch(0, 0x92, 60, 9), 3, 0}, ev{meta(0, 0x59, []byte{0xff, 0}), 3, 0}, ev{ch(2, 0xa0, 60), 3, 0}, ev{sysx(0, 0xf0, []byte{0x43, 0x90, 60, 1, 0xf7}), 3, 0})
	m := Model[st]{
		Events: len(evs),
		Bytes:  func(s st, e int) []byte { return evs[e].b },
		Step: func(s st, e int) (st, string) {
			switch evs[e].kind {
			case 0:
				s.s[evs[e].i] = true
			case 1, 2:
				s.s[evs[e].i] = false
			}
			return s, ""
		},
	}
	for i := range evs {
		m.Probes = append(m.Probes, i)
	}
	explore(r, "sounding notes", "notes-model", "notes-body", m)
	explore(r, "sounding notes, format 1", "notes-model", "notes-track", m)
	// running status, same-tick events, other channels
	a := []Sym{}
	for _, b := range [][]byte{ch(1, 0x90, 60, 1), ch(0, 0x90, 60, 0), ch(2, 0x80, 60, 64), ch(0, 60, 100), ch(0, 61, 2), ch(0, 0x91, 60, 3), ch(3, 0x81, 60, 0), ch(0, 0x80, 61, 1), eot} {
		a = append(a, Sym{"", b})
	}
	n := ifelse(r.Thorough(), 7, 6)
	seqs(r, "notes-body", a, n-1, "C3 0")
	seqs(r, "notes-track", a, n-1, "C3 0")
	seqs(r, "notes-body", alphabet(), ifelse(r.Thorough(), 3, 2), "C4 0")
	seqs(r, "notes-track", alphabet(), ifelse(r.Thorough(), 3, 2), "C3 1")
	// every channel, key and velocity
	r.Par("every channel x key x velocity", 16*128, func(w *W, i int) bool {
		b := []byte{}
		c, k := byte(i>>7), byte(i&0x7f)
		for v := byte(1); v < 128; v++ {
			b = append(b, ch(uint32(v), 0x90|c, k, v)...)
			if v%2 == 0 {
				b = append(b, ch(200, 0x80|c, k, v)...)
			} else {
				b = append(b, ch(100, 0x90|c, k, 0)...)
			}
		}
		return w.Case("notes-body", b, "C3 0")
	})
	r.Par("every pair of channel and key: only the same pair ends a note", 256*64, func(w *W, i int) bool {
		c0, c1, k := byte(i&0xf), byte(i>>4&0xf), byte(i>>8)*2
		return w.Case("notes-track", cat(ch(0, 0x90|c0, k, 1), ch(10, 0x80|c1, k, 1), ch(10, 0x90|c0, k+1, 1), ch(10, 0x80|c0, k, 1), ch(0, 0x90|c1, k+1, 0)), "C3 0")
	})
	r.Par("transposed and named", 128*60, func(w *W, i int) bool {
		k := byte(i & 0x7f)
		s := []int{0, 1, -1, 2, 3, 5, 12, -12, 64, -64, 127, -127, 128, 300, -300}[i>>7%15]
		b := cat(meta(0, 0x59, []byte{[]byte{0, 3, 0xfd, 0xff}[i>>7/15%4], 0}), ch(0, 0x90, k, 1), ch(5, 0x80, k, 1), ch(0, 0x91, k, 3), meta(0, 0x59, []byte{0xfe, 1}), ch(7, 0x91, k, 0))
		return w.Case("notes-body", b, fmt.Sprintf("C3 %d", s)) && w.Case("notes-body", b, fmt.Sprintf("C3 %d", -s))
	})
	r.Par("notes of several tracks", 81, func(w *W, i int) bool {
		t := [][]byte{melody(0), cat(ch(0, 0x90, 60, 1), meta(50, 0x2f, nil)), cat(ch(9, 0x80, 60, 1), ch(0, 0x90, 60, 1), eot)}
		return w.Case("notes", fileN(1, 96, tempoTrack(), t[i%3], t[i/3%3], t[i/9%3], t[i/27]), "C3 0") && w.Case("notes", fileN(2, 96, tempoTrack(), t[i%3], t[i/3%3]), "C3 0")
	})
	corpusCases2(r, "notes", "C3 0")
	scaleCases(r, r.Par, "notes", "C3 0", 1024)
	extremeTriples(r, "notes-body", "C3 0", cat)
	on, off := ch(0, 0x93, 60, 1), ch(0, 0x83, 60, 1)
	deltaCross(r, "notes-body", "C3 0", asIs, [][]byte{on, off, on, off}, [][]byte{on, ch(0, 0x94, 60, 2), ch(0, 0x94, 60, 0), off}, [][]byte{on, meta(0, 0x51, []byte{3, 2, 1}), off, ch(0, 0x83, 60, 1)}, [][]byte{meta(0, 0x51, []byte{0, 0, 1}), on, meta(0, 1, []byte("x")), ch(0, 0x93, 60, 0)},
		[][]byte{on, ch(0, 0x93, 61, 1), ch(0, 0x83, 61, 1), meta(0, 0x2f, nil)})
	setMiddleC("C3")
}

func corpusCases2(r *R, name, arg string) {
	c := corpus()
	r.Par("corpus "+arg, len(c), func(w *W, i int) bool { return w.Case(name, c[i].B, arg) })
}

func init() {
	oracle("notes-model", func(in []byte, arg string) (string, error) {
		name, _, _ := strings.Cut(arg, "|")
		return eval(name, in, "C3 0")
	})
}

// ---- P12

func runP12(r *R) {
	programCases(r, "notes|stdout", "notes|out", "notes --json|stdout", "notes --json|out")
	tempos := [][]byte{{0x07, 0xa1, 0x20}, {0x03, 0xd0, 0x91}, {0x0f, 0x42, 0x41}}
	const G = 5 // ticks 0..G in units
	K := ifelse(r.Thorough(), 4, 3)
	// tempo maps: sequences of (tick, tempo) with nondecreasing ticks
	type tm struct{ tick, tempo int }
	maps := [][]tm{{}}
	for lo, k := 0, 0; k < K; k++ {
		hi := len(maps)
		for _, m := range maps[lo:hi] {
			for t := 0; t <= G; t++ {
				if len(m) > 0 && t < m[len(m)-1].tick {
					continue
				}
				for x := range tempos {
					maps = append(maps, append(append([]tm{}, m...), tm{t, x}))
				}
			}
		}
		lo = hi
	}
	states := map[string]bool{}
	for _, m := range maps {
		for t := 0; t <= G; t++ {
			cur := -1
			for _, x := range m {
				if x.tick <= t {
					cur = x.tempo
				}
			}
			states[fmt.Sprint(m, t, cur)] = true
		}
	}
	r.states.Add(int64(len(states)))
	r.transitions.Add(int64(len(maps) * G * 3 * 2))
	// note grid: a note for every start < end
	type nt struct {
		tick int
		b    []byte
	}
	grid := []nt{}
	key := byte(40)
	for s := 0; s <= G; s++ {
		for e := s; e <= G; e++ {
			grid = append(grid, nt{s, []byte{0x90, key, 9}}, nt{e, []byte{0x80, key, 9}})
			key++
		}
	}
	for i := range grid { // a note of length 0: on before off
		_ = i
	}
	sort.SliceStable(grid, func(i, j int) bool { return grid[i].tick < grid[j].tick })
	build := func(es []nt, unit int) []byte {
		b, at := []byte{}, 0
		for _, e := range es {
			b = append(b, vlq(uint32((e.tick-at)*unit))...)
			b = append(b, e.b...)
			at = e.tick
		}
		return append(b, cat(vlq(uint32(unit)), []byte{0xff, 0x2f, 0})...)
	}
	for _, cfg := range []struct{ div, unit int }{{96, 96}, {480, 7}, {1, 1}, {32767, 40000}} {
		r.Par(fmt.Sprintf("tempo maps x notes, division %d, unit %d", cfg.div, cfg.unit), len(maps), func(w *W, i int) bool {
			tt := []nt{}
			for _, x := range maps[i] {
				tt = append(tt, nt{x.tick, cat([]byte{0xff, 0x51, 3}, tempos[x.tempo])})
			}
			r.traces.Add(4)
			if !w.Case("notes", fileN(1, cfg.div, build(tt, cfg.unit), build(grid, cfg.unit)), "C3 0") || !w.Case("notes", fileN(2, cfg.div, build(tt, cfg.unit), build(grid[:2], cfg.unit), build(grid, cfg.unit)), "C3 0") {
				return false
			}
			// format 0: tempos after, and before, the notes of the same tick
			after := append(append([]nt{}, grid...), tt...)
			before := append(append([]nt{}, tt...), grid...)
			for _, x := range [][]nt{after, before} {
				sort.SliceStable(x, func(i, j int) bool { return x[i].tick < x[j].tick })
				if !w.Case("notes", fileN(0, cfg.div, build(x, cfg.unit)), "C3 0") {
					return false
				}
			}
			return true
		})
	}
	note := cat(ch(0, 0x90, 60, 1), ch(480, 0x80, 60, 1), ch(960, 0x90, 61, 1), ch(1, 0x80, 61, 1), eot)
	td := ifelse(r.Thorough(), tempoDomain, tempoDomain.stride(61))
	r.Par("tempos", td.N, func(w *W, i int) bool {
		r.traces.Add(1)
		return w.Case("notes", fileN(1, 480, cat([]byte{0}, td.At(i), []byte{0x83, 0x60}, td.At(td.N-1-i), eot), note), "C3 0")
	})
	r.Par("every division", 65536, func(w *W, i int) bool {
		return w.Case("notes", fileN(1, i, cat(meta(0, 0x51, []byte{7, 0xa1, 0x20}), meta(500, 0x51, []byte{3, 4, 5}), eot), note), "C3 0") && w.Case("notes", fileN(0, i, note), "C3 0")
	})
	// long files: rounding does not accumulate
	r.Par("accumulation", 60, func(w *W, i int) bool {
		div := []int{7, 96, 480, 32767, 997, 384}[i%6]
		d := uint32([]int{1, 3, 10, 100, 12345}[i/6%5])
		b, t := []byte{}, []byte{}
		for k := 0; k < 3000; k++ {
			b = append(b, ch(d, 0x90, byte(k%128), 1)...)
			b = append(b, ch(d+1, 0x80, byte(k%128), 1)...)
			if i >= 30 && k < 400 {
				t = append(t, meta(d*3+2, 0x51, []byte{byte(k%9 + 1), byte(k * 7), byte(k * 13)})...)
			}
		}
		return w.Case("notes", fileN(1, div, cat(t, eot), cat(b, eot)), "C3 0")
	})
	ds := vlqEdges()
	r.Par("large ticks", len(ds)*len(ds)*4, func(w *W, i int) bool {
		a, b := ds[i%len(ds)], ds[i/len(ds)%len(ds)]
		t := tempos[i/len(ds)/len(ds)%3]
		if i/len(ds)/len(ds) == 3 {
			t = []byte{0xff, 0xff, 0xff}
		}
		return w.Case("notes", fileN(1, 480, cat(meta(a, 0x51, t), meta(b, 0x51, tempos[1]), eot), cat(ch(b, 0x90, 1, 1), ch(a, 0x80, 1, 1), eot)), "C3 0")
	})
	// tempo and key signature events among the notes in every position
	k := []Sym{}
	for _, b := range [][]byte{ch(48, 0x90, 60, 1), ch(48, 0x80, 60, 1), meta(24, 0x51, tempos[1]), meta(0, 0x51, tempos[2]), meta(24, 0x59, []byte{0xfe, 0}), ch(0, 0x90, 61, 1), ch(10, 0x90, 61, 0), meta(10, 1, []byte("x"))} {
		k = append(k, Sym{"", b})
	}
	seqs(r, "notes-body", k, ifelse(r.Thorough(), 6, 5), "C3 0")
	r.Sample(map[string]any{"tempo map": fmt.Sprint(maps[len(maps)-1]), "notes": "every interval of the grid 0..5"})
}

// ---- P14

type problems map[string]int

func refProblems(f *File) problems {
	p := problems{}
	if f.Format == 0 && len(f.Trk) != 1 {
		p["file: tracks"]++
	}
	for i, t := range f.Trk {
		add := func(s string) { p[fmt.Sprintf("track %d: %s", i, s)]++ }
		eots := 0
		for k := range t {
			e := &t[k]
			if f.Format == 1 && i == 0 {
				switch e.Kind {
				case kTempo, kTimeSignature, kTrackName, kSMPTEOffset, kCopyright, kEndOfTrack:
				default:
					add("unexpected event")
				}
			}
			if f.Format == 1 && i > 0 && (e.Kind == kTempo || e.Kind == kSMPTEOffset) {
				add("unexpected event")
			}
			if e.Kind == kEndOfTrack {
				eots++
				if k != len(t)-1 {
					add("end of track is not last")
				}
			}
			if e.Kind == kController && e.V[0] == 0 {
				if k+1 >= len(t) || t[k+1].Kind != kController || t[k+1].V[0] != 32 || t[k+1].Ch != e.Ch {
					add("MSB")
				}
			}
			if e.Kind == kController && e.V[0] == 32 {
				if k == 0 || t[k-1].Kind != kController || t[k-1].V[0] != 0 || t[k-1].Ch != e.Ch {
					add("LSB")
				}
			}
		}
		if eots == 0 {
			add("no end of track")
		}
	}
	return p
}

var trackNo = regexp.MustCompile(`(?i)track (\d+)`)

// The category of a problem: by the words before the event is described.
func category(s string) string {
	head, _, _ := strings.Cut(s, "(")
	m := trackNo.FindStringSubmatch(head)
	if m == nil {
		if strings.Contains(head, "tracks") {
			return "file: tracks"
		}
		return "?: " + s
	}
	c := "?: " + s
	switch {
	case strings.Contains(s, "is not last"):
		c = "end of track is not last"
	case strings.Contains(head, "missing EndOfTrack"):
		c = "no end of track"
	case strings.Contains(head, "Bank Select MSB"):
		c = "MSB"
	case strings.Contains(head, "Bank Select LSB"):
		c = "LSB"
	case strings.Contains(head, "unexpected"):
		c = "unexpected event"
	}
	return fmt.Sprintf("track %s: %s", m[1], c)
}

func validateOracle(in []byte, arg string) (string, error) {
	c, smf, f, err := decodeCheck(in)
	if err != nil || smf == nil {
		return "decode " + c, err
	}
	want := refProblems(f)
	got := problems{}
	msgs := []string{}
	for _, e := range smf.Validate() {
		s := fmt.Sprintf("%v", error(e))
		msgs = append(msgs, s)
		got[category(s)]++
	}
	for k, n := range want {
		if got[k] != n {
			return "", fmt.Errorf("expected %d x %q, got %d: %q", n, k, got[k], msgs)
		}
	}
	for k, n := range got {
		if want[k] != n {
			return "", fmt.Errorf("unexpected problem %d x %q: %q", n, k, msgs)
		}
	}
	return fmt.Sprintf("%d kinds of problem", len(want)), nil
}

func runP14(r *R) {
	programCases(r, "disassemble|stdout", "--verbose|out", "disassemble --split|default", "notes|stdout", "export|out", "tsv|out", "transpose|out")
	a := []Sym{}
	for _, b := range [][]byte{ch(0, 0xb0, 0, 1), ch(0, 0xb0, 32, 1), ch(0, 0xb1, 0, 1), ch(1, 0xb1, 32, 1), ch(0, 0xb0, 7, 1), eot, ch(0, 0x90, 60, 1), meta(0, 0x51, []byte{7, 8, 9}), meta(0, 3, []byte("missing EndOfTrack")), ch(0, 0, 5), ch(0, 32, 6)} {
		a = append(a, Sym{"", b})
	}
	n := ifelse(r.Thorough(), 6, 5)
	k := len(a)
	for format := 0; format < 3; format++ {
		r.Par(fmt.Sprintf("format %d: all sequences of <= %d structural events", format, n), words(k, n), func(w *W, i int) bool {
			var buf [8]int
			x := join(a, word(k, i, buf[:]))
			return w.Case("validate", fileN(format, 96, x), "") && w.Case("validate", fileN(format, 96, tempoTrack(), x), "")
		})
		al := alphabet()
		r.Par(fmt.Sprintf("format %d: all pairs of events in two tracks", format), len(al)*len(al), func(w *W, i int) bool {
			x, y := al[i%len(al)].B, al[i/len(al)].B
			return w.Case("validate", fileN(format, 96, cat(x, eot), cat(y, eot)), "") && w.Case("validate", fileN(format, 96, cat(x, y)), "") && w.Case("validate", fileN(format, 96, eot, cat(x, eot), cat(y, x)), "")
		})
		ts := [][]byte{nil, eot, tempoTrack(), melody(0), everything(), ch(0, 0xb3, 0, 1), cat(ch(0, 0xb3, 0, 1), ch(0, 0xb3, 32, 1), eot), cat(eot, eot)}
		r.Par(fmt.Sprintf("format %d: all lists of <= 4 tracks", format), words(len(ts), 4), func(w *W, i int) bool {
			var buf [8]int
			b := [][]byte{}
			for _, x := range word(len(ts), i, buf[:]) {
				b = append(b, ts[x])
			}
			return w.Case("validate", fileN(format, 96, b...), "")
		})
		r.Par(fmt.Sprintf("format %d: a problem in one of many tracks", format), 300*len(ts), func(w *W, i int) bool {
			k := i / len(ts)
			b := [][]byte{}
			for j := 0; j <= k; j++ {
				b = append(b, eot)
			}
			b[k] = ts[i%len(ts)]
			return w.Case("validate", fileN(format, 96, b...), "")
		})
		// every controller number and channel around the bank select
		r.Par(fmt.Sprintf("format %d: every controller pair", format), 128*128, func(w *W, i int) bool {
			x, y := byte(i>>7), byte(i&0x7f)
			return w.Case("validate", fileN(format, 96, eot, cat(ch(0, 0xb2, x, 9), ch(0, 0xb2, y, 9), eot)), "") && w.Case("validate", fileN(format, 96, eot, cat(ch(0, 0xb2, 0, x), ch(0, 0xb2, 32, y), ch(0, 0xb0|x&0xf, 0, 9), ch(0, 0xb0|y&0xf, 32, 9), eot)), "")
		})
	}
	for _, d := range domains() {
		if d.N < 3000 {
			for f := 0; f < 3; f++ {
				r.Par(fmt.Sprintf("format %d: %s", f, d.Name), d.N, func(w *W, i int) bool {
					b := cat([]byte{0}, d.At(i), eot)
					return w.Case("validate", fileN(f, 96, b), "") && w.Case("validate", fileN(f, 96, eot, b), "")
				})
			}
		}
	}
	corpusCases(r, "validate")
	scaleCases(r, r.Par, "validate", "", 1024)
	extremeTriples(r, "validate", "", func(p ...[]byte) []byte { return fileN(1, 96, cat(p...), cat(p...)) })
	for f := 0; f < 3; f++ {
		deltaCross(r, "validate", "", func(b []byte) []byte { return fileN(f, 96, b, b) }, [][]byte{ch(0, 0x90, 60, 1), meta(0, 0x51, []byte{3, 2, 1}), meta(0, 3, []byte("x")), meta(0, 0x2f, nil)}, [][]byte{ch(0, 0x90, 60, 1), meta(0, 0x2f, nil), ch(0, 0x80, 60, 1), meta(0, 0x2f, nil)})
	}
}
