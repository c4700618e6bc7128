package main

// Model checking of the decoder's state: small explicit-state models, all their reachable states, and
// every transition replayed on the real decoder.

import (
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/lib"
)

// Explores all reachable states of a model (breadth first) and replays, for each state s and event e,
// the shortest path to s, then e, then each probe, on the real code. run gets the path and returns the
// body and the expectation for its last event.
type Model[S comparable] struct {
	Init   S
	Events int
	Step   func(s S, e int) (next S, expect string) // expect: summary of the event, or "reject"
	Bytes  func(s S, e int) []byte
	Probes []int
}

func summary(e *Ev) string {
	return fmt.Sprintf("%v %02X %v %v", e.Kind, e.Status, e.V, e.S)
}

func explore[S comparable](r *R, label, oracleName, arg string, m Model[S]) {
	type node struct {
		body []byte
		ok   bool
	}
	type job struct {
		body   []byte
		expect string
	}
	seen := map[S][]byte{m.Init: {}}
	queue := []S{m.Init}
	jobs := []job{}
	trans := 0
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		path := seen[s]
		for e := 0; e < m.Events; e++ {
			n, x := m.Step(s, e)
			trans++
			b := cat(path, m.Bytes(s, e))
			jobs = append(jobs, job{b, x})
			if x == "reject" {
				continue
			}
			if _, ok := seen[n]; !ok {
				seen[n] = b
				queue = append(queue, n)
			}
			for _, p := range m.Probes {
				_, y := m.Step(n, p)
				jobs = append(jobs, job{cat(b, m.Bytes(n, p)), y})
			}
		}
	}
	r.states.Add(int64(len(seen)))
	r.transitions.Add(int64(trans))
	r.Par(fmt.Sprintf("%s: %d states, %d transitions", label, len(seen), trans), len(jobs), func(w *W, i int) bool {
		r.traces.Add(1)
		return w.Case(oracleName, jobs[i].body, arg+"|"+jobs[i].expect)
	})
	if len(jobs) > 100 {
		r.Sample(map[string]any{"model": label, "trace": fmt.Sprintf("% X", jobs[len(jobs)/2].body), "expected": jobs[len(jobs)/2].expect})
	}
}

func setMiddleC(arg string) {
	c, base := lib.C3, -1
	if strings.HasPrefix(arg, "C4") {
		c, base = lib.C4, -2
	}
	if context.MiddleC != c {
		context.SetMiddleC(c)
	}
	if refBase != base {
		refBase = base
	}
}

func init() {
	// the decoder on a track body against the reference and, for the last event, the model's prediction
	oracle("model", func(in []byte, arg string) (string, error) {
		mode, expect, _ := strings.Cut(arg, "|")
		setMiddleC(mode)
		c, _, f, err := decodeCheck(file1(in))
		if err != nil {
			return c, err
		}
		if expect == "reject" {
			if !strings.HasPrefix(c, "rejected") {
				return c, fmt.Errorf("expected a rejection, got %s", c)
			}
			return "reject", nil
		}
		if f == nil {
			return c, fmt.Errorf("expected %s, got %s", expect, c)
		}
		t := f.Trk[0]
		if got := summary(&t[len(t)-1]); got != expect && expect != "" {
			return c, fmt.Errorf("expected %s, got %s", expect, got)
		}
		return t[len(t)-1].Kind.String(), nil
	})
	oracle("bodyC", func(in []byte, arg string) (string, error) {
		setMiddleC(arg)
		c, _, _, err := decodeCheck(file1(in))
		return c, err
	})

	check(&Check{ID: "P02", Level: "model_checking",
		Rule:  "all reachable states of the running-status x open-SysEx model (every channel status), every event from every state with probes of the state reached, and all event sequences up to the bound, replayed on the real decoder",
		Assum: []string{"F0 01 F7 (no manufacturer) is unspecified"},
		Run:   runP02})
	check(&Check{ID: "P13", Level: "model_checking",
		Rule: "all key signature byte pairs; all notes x channels x key signatures x both conventions; all states of a model of the scale and of the sounding notes' names, every transition replayed on the real decoder",
		Run:  runP13})
	check(&Check{ID: "P22", Level: "model_checking",
		Rule: "all states of a two-channel bank model with every transition replayed on the real decoder, all 128x128 MSB/LSB values on every channel, all event sequences up to the bound",
		Run:  runP22})
}

func chanLen(status byte) int {
	switch status & 0xf0 {
	case 0xa0, 0xc0, 0xd0:
		return 1
	}
	return 2
}

// ---- P02

type p02 struct {
	running byte
	open    bool
}

func runP02(r *R) {
	type ev struct {
		name  string
		class string // chan, run, meta, f0, f0open, f7, f7end
		b     []byte
	}
	evs := []ev{
		{"run", "run", nil},
		{"f7", "f7", []byte{0xf7, 2, 0x11, 0x12}},
		{"f7end", "f7end", []byte{0xf7, 2, 0x13, 0xf7}},
		{"f7end0", "f7end", []byte{0xf7, 1, 0xf7}},
		{"f7empty", "f7", []byte{0xf7, 0}},
		{"f7inner", "f7", []byte{0xf7, 3, 0xf7, 0xf0, 0x01}},
		{"f0", "f0", []byte{0xf0, 3, 0x43, 0x12, 0xf7}},
		{"f0min", "f0", []byte{0xf0, 2, 0x43, 0xf7}},
		{"f0open", "f0open", []byte{0xf0, 3, 0x43, 0x12, 0x13}},
		{"f0open1", "f0open", []byte{0xf0, 1, 0x43}},
		{"f0openinner", "f0open", []byte{0xf0, 3, 0x43, 0xf7, 0x13}},
	}
	for _, m := range alphabet() {
		if len(m.B) > 2 && m.Name != "unknown-meta" {
			if i := strings.IndexByte(string(m.B), 0xff); i >= 0 && i < 3 {
				evs = append(evs, ev{m.Name, "meta", m.B[i:]})
			}
		}
	}
	evs = append(evs, ev{"empty text", "meta", []byte{0xff, 1, 0}}, ev{"text ending in F7", "meta", []byte{0xff, 1, 1, 0xf7}}, ev{"text with status", "meta", []byte{0xff, 5, 2, 0x90, 0xf0}})
	for s := 0x80; s < 0xf0; s++ {
		b := []byte{byte(s), 0x05, 0x07}
		evs = append(evs, ev{fmt.Sprintf("%02X", s), "chan", b[:1+chanLen(byte(s))]})
	}
	bytesOf := func(s p02, e int) []byte {
		b := evs[e].b
		if evs[e].class == "run" {
			b = []byte{0x03, 0x04}
			if s.running == 0 || chanLen(s.running) == 1 {
				b = b[:1]
			}
		}
		return cat([]byte{0x00}, b)
	}
	chanKinds := []Kind{kNoteOff, kNoteOn, kPolyphonicPressure, kController, kProgramChange, kChannelPressure, kPitchBend}
	// The model predicts the kind and status; the reference predicts the rest.
	m := Model[p02]{
		Events: len(evs),
		Probes: []int{0, 1, 2, 6, 8},
		Bytes:  bytesOf,
		Step: func(s p02, e int) (p02, string) {
			n := s
			k := func(k Kind, st byte) string { return fmt.Sprintf("%v %02X", k, st) }
			switch evs[e].class {
			case "chan":
				n.running = evs[e].b[0]
				return n, k(chanKinds[n.running>>4-8], n.running)
			case "run":
				if s.running == 0 {
					return s, "reject"
				}
				return s, k(chanKinds[s.running>>4-8], s.running)
			case "meta":
				n.running = 0
				return n, k(kindOfMeta(evs[e].b[1]), 0xff)
			case "f0", "f0open":
				if s.open {
					return s, "reject"
				}
				n.running, n.open = 0, evs[e].class == "f0open"
				return n, k(kSysExMessage, 0xf0)
			default:
				n.running = 0
				if !s.open {
					return n, k(kSysExEscape, 0xf7)
				}
				n.open = evs[e].class == "f7"
				return n, k(kSysExContinuation, 0xf7)
			}
		},
	}
	explore(r, "running status x open SysEx", "p02", "", m)
	// all sequences
	a := []Sym{
		{"on", ch(0, 0x90, 0x40, 0x41)}, {"on1", ch(2, 0x91, 0x40, 0x41)}, {"off", ch(0, 0x80, 0x40, 0x41)}, {"pc", ch(0, 0xc0, 0x05)}, {"run1", ch(1, 0x07)}, {"run2", ch(0, 0x08, 0x09)},
		{"ctl", ch(0, 0xb2, 0x08, 0x09)},
		{"text", meta(0, 1, []byte("x"))}, {"eot", eot}, {"f0", sysx(0, 0xf0, []byte{0x43, 1, 0xf7})}, {"f0o", sysx(0, 0xf0, []byte{0x43, 2})},
		{"f7", sysx(0, 0xf7, []byte{3})}, {"f7e", sysx(0, 0xf7, []byte{4, 0xf7})}, {"f70", sysx(0, 0xf7, nil)},
	}
	seqs(r, "body", a, ifelse(r.Thorough(), 6, 5), "")
	for _, s := range []struct{ set, use []byte }{
		{ch(0, 0x94, 1, 2), ch(0, 3, 4)}, {ch(0, 0xc4, 1), ch(0, 3)}, {sysx(0, 0xf0, []byte{0x43, 1}), sysx(0, 0xf7, []byte{1, 0xf7})},
		{sysx(0, 0xf0, []byte{0x43, 1}), sysx(0, 0xf0, []byte{0x43, 0xf7})}, {sysx(0, 0xf7, []byte{0x43, 1}), sysx(0, 0xf7, []byte{1, 0xf7})},
	} {
		stateScale(r, "body", "", s.set, s.use, 1025)
		n := upTo(4097)
		r.Par("long runs", len(n), func(w *W, i int) bool {
			return w.Case("body", cat(s.set, repeat(s.use, n[i])), "") && w.Case("body", cat(s.set, repeat(ch(1, 5, 6), n[i]), s.use), "") && w.Case("body", cat(s.set, repeat(sysx(1, 0xf7, []byte{7}), n[i]), s.use, s.use), "")
		})
	}
	text, open, more, end := meta(0, 1, []byte("x")), sysx(0, 0xf0, []byte{0x43, 2}), sysx(0, 0xf7, []byte{3}), sysx(0, 0xf7, []byte{4, 0xf7})
	deltaCross(r, "body", "", asIs, [][]byte{ch(0, 0x90, 0x40, 0x41), ch(0, 8, 9), ch(0, 0, 0), ch(0, 0x40, 0)}, [][]byte{ch(0, 0xc0, 5), ch(0, 0), ch(0, 7), ch(0, 0xb0, 0, 1)},
		[][]byte{ch(0, 0x90, 1, 1), text, ch(0, 0x80, 1, 1), ch(0, 2, 2)}, [][]byte{open, more, end, end}, [][]byte{open, more, more, end}, [][]byte{open, end, more, open}, [][]byte{open, text, more, end},
		[][]byte{more, open, end, more}, [][]byte{end, more, ch(0, 0x90, 1, 1), end})
	extremeTriples(r, "body", "", cat)
	// state does not leak from one track to the next
	k := len(a)
	r.Par("pairs of tracks, each of two events", k*k*k*k, func(w *W, i int) bool {
		x := cat(a[i%k].B, a[i/k%k].B)
		y := cat(a[i/k/k%k].B, a[i/k/k/k].B)
		return w.Case("decode", fileN(1, 96, x, y), "")
	})
}

func kindOfMeta(t byte) Kind {
	for k, x := range metaType {
		if x == t {
			return k
		}
	}
	return kNone
}

func init() {
	oracle("p02", func(in []byte, arg string) (string, error) {
		_, expect, _ := strings.Cut(arg, "|")
		c, _, f, err := decodeCheck(file1(in))
		if err != nil {
			return c, err
		}
		if expect == "reject" {
			if !strings.HasPrefix(c, "rejected") {
				return c, fmt.Errorf("expected a rejection, got %s", c)
			}
			return "reject", nil
		}
		if f == nil {
			return c, fmt.Errorf("expected %s, got %s", expect, c)
		}
		e := f.Trk[0][len(f.Trk[0])-1]
		if got := fmt.Sprintf("%v %02X", e.Kind, e.Status); got != expect {
			return c, fmt.Errorf("expected %s, got %s", expect, got)
		}
		return expect, nil
	})
}

// ---- P13

type p13 struct {
	flats bool
	a, b  byte // name of the sounding note: 0 none, 1 sharp, 2 flat
	la    byte // name at the last note-on, when not sounding
	lb    byte
}

func runP13(r *R) {
	programCases(r, programLines("notes|stdout", "notes --json|out", "notes --transpose 7|stdout", "notes --json --transpose -13|out", "disassemble|stdout", "export|stdout", "tsv|out")...)
	for _, mode := range []string{"C3", "C4"} {
		base := ifelse(mode == "C4", -2, -1)
		// every key signature byte pair, followed by every pitch class
		r.Par("key signature bytes "+mode, 65536, func(w *W, i int) bool {
			b := meta(0, 0x59, []byte{byte(i >> 8), byte(i)})
			if i&0xff <= 1 && (i>>8 <= 8 || i>>8 >= 248) {
				for n := byte(0); n < 128; n++ {
					b = append(b, 0, 0x90, n, 1, 0, 0x83, n, 2)
				}
			}
			return w.Case("bodyC", b, mode)
		})
		for _, pre := range []struct {
			name string
			b    []byte
		}{{"none", nil}, {"flats", meta(0, 0x59, []byte{0xff, 0})}, {"sharps", meta(0, 0x59, []byte{7, 1})}, {"flats then C", cat(meta(0, 0x59, []byte{0xf9, 1}), meta(0, 0x59, []byte{0, 0}))}} {
			r.Par("every note x channel after "+pre.name+" "+mode, 128*16, func(w *W, i int) bool {
				n, c := byte(i&0x7f), byte(i>>7)
				change := meta(1, 0x59, []byte{0xfc, 0})
				back := meta(1, 0x59, []byte{3, 0})
				return w.Case("bodyC", cat(pre.b, ch(0, 0x90|c, n, 64), ch(9, 0x80|c, n, 64)), mode) &&
					w.Case("bodyC", cat(pre.b, ch(0, 0x90|c, n, 64), change, ch(9, 0x80|c, n, 64), ch(0, 0x90|c, n, 1)), mode) &&
					w.Case("bodyC", cat(pre.b, ch(0, 0x90|c, n, 64), change, back, ch(9, 0x80|c, n, 64), ch(0, 0x90|c, n, 1)), mode) &&
					w.Case("bodyC", cat(pre.b, change, ch(0, 0x90|c, n, 64), back, ch(9, 0x90|c, n, 0), ch(0, 0x80|c, n, 1)), mode)
			})
		}
		// model: two keys on two channels with the same note number
		name := func(f bool) byte { return ifelse[byte](f, 2, 1) }
		str := func(n int, x byte) string { return noteName(n, x == 2, base) }
		evs := [][]byte{
			ch(0, 0x90, 61, 9), ch(0, 0x80, 61, 9), ch(0, 0x91, 61, 9), ch(0, 0x81, 61, 9),
			meta(0, 0x59, []byte{0xfe, 0}), meta(0, 0x59, []byte{2, 1}), meta(0, 0x59, []byte{0, 1}), ch(0, 0xb0, 7, 7), meta(0, 1, []byte("C♭")),
		}
		m := Model[p13]{
			Events: len(evs),
			Probes: []int{0, 1, 2, 3},
			Bytes:  func(s p13, e int) []byte { return evs[e] },
			Step: func(s p13, e int) (p13, string) {
				n := s
				x := ""
				note := func(k Kind, st int, nm byte) string {
					return fmt.Sprintf("%v %02X [61 9 0 0 0 0] %s", k, st, str(61, nm))
				}
				switch e {
				case 0:
					n.a = name(s.flats)
					n.la = n.a
					x = note(kNoteOn, 0x90, n.a)
				case 2:
					n.b = name(s.flats)
					n.lb = n.b
					x = note(kNoteOn, 0x91, n.b)
				case 1:
					if s.a != 0 {
						x = note(kNoteOff, 0x80, s.a)
					}
					n.a = 0
				case 3:
					if s.b != 0 {
						x = note(kNoteOff, 0x81, s.b)
					}
					n.b = 0
				case 4:
					n.flats = true
				case 5, 6:
					n.flats = false
				}
				return n, x
			},
		}
		explore(r, "scale and sounding notes "+mode, "model", mode, m)
		syms := []Sym{}
		for _, b := range evs {
			syms = append(syms, Sym{"", b})
		}
		seqs(r, "bodyC", syms, ifelse(r.Thorough(), 7, 5), mode)
		// the names in the note list, as they are and transposed
		seqs(r, "notes-body", syms, ifelse(r.Thorough(), 6, 4), mode+" 0")
		r.Par("names in the note list "+mode, 30*30+30*25, func(w *W, i int) bool {
			first, second, steps := i%30, i/30%30, 0
			if i >= 900 {
				first, second, steps = (i-900)%30, (i-900)%30*7%30, (i-900)/30-12
			}
			key := func(k int) []byte { return meta(1, 0x59, []byte{byte(k%15 - 7), byte(k / 15)}) }
			all := []byte{}
			for n := byte(0); n < 128; n++ {
				all = append(all, ch(0, 0x90|n%16, n, 1)...)
				all = append(all, ifelse(n%3 == 0, ch(1, 0x90|n%16, n, 0), ch(1, 0x80|n%16, n, 1))...)
			}
			rest := []byte{} // ended by the end of the track
			for n := byte(0); n < 128; n++ {
				rest = append(rest, ch(0, 0x90|n%16, n, 1)...)
			}
			return w.Case("notes-body", cat(ch(0, 0x92, 61, 1), key(first), ch(0, 0x93, 61, 1), all, key(second), ch(0, 0x82, 61, 1), ch(0, 0x83, 61, 1), all, rest), fmt.Sprintf("%s %d", mode, steps))
		})
		// many notes sounding at once when the key changes, started and ended in different orders
		r.Par("many notes over a key change "+mode, 2048*4/16, func(w *W, i int) bool {
			order := func(j, o int) (c, n byte) {
				switch o {
				case 0: // channel by channel
					return byte(j / 128), byte(j % 128)
				case 1: // key by key
					return byte(j % 16), byte(j / 16)
				case 2:
					return byte((2047 - j) / 128), byte((2047 - j) % 128)
				default:
					j = (j*1021 + 7) % 2048
					return byte(j / 128), byte(j % 128)
				}
			}
			k := 1 + i/4*16 + i/4%16
			on, off := []byte{}, []byte{}
			for j := 0; j < k; j++ {
				c, n := order(j, i%4)
				on = append(on, ch(0, 0x90|c, n, 1)...)
				if j == k/2 {
					on = append(on, meta(1, 0x59, []byte{0xfd, 0})...)
				}
			}
			for j := 0; j < 2048; j++ {
				c, n := order(j, (i/4+i)%4)
				off = append(off, ch(0, 0x80|c, n, 1)...)
			}
			return w.Case("bodyC", cat(on, meta(0, 0x59, []byte{byte(i % 3), 0}), off), mode)
		})
		note := cat(ch(0, 0x90, 61, 1), ch(3, 0x95, 70, 1), ch(1, 0x80, 61, 1), ch(3, 0x85, 70, 1))
		stateScale(r, "bodyC", mode, meta(0, 0x59, []byte{0xfe, 0}), note, 257)
		deltaCross(r, "bodyC", mode, asIs, [][]byte{meta(0, 0x59, []byte{0xfe, 0}), ch(0, 0x90, 61, 1), meta(0, 0x59, []byte{3, 0}), ch(0, 0x80, 61, 1)}, [][]byte{ch(0, 0x9f, 70, 1), meta(0, 0x59, []byte{0xfd, 1}), ch(0, 0x9f, 70, 0), ch(0, 0x90, 70, 1)})
		stateScale(r, "bodyC", mode, cat(meta(0, 0x59, []byte{0xfe, 0}), ch(0, 0x97, 61, 1)), cat(meta(0, 0x59, []byte{2, 0}), ch(0, 0x87, 61, 1), note), 257)
	}
	setMiddleC("C3")
}

// ---- P22

type p22 struct{ m0, l0, m1, l1 byte }

func runP22(r *R) {
	vals := []byte{1, 127}
	type ev struct {
		b []byte
		f func(s *p22)
		x func(s p22) string
	}
	evs := []ev{}
	pc := func(c, prog byte) ev {
		return ev{ch(0, 0xc0|c, prog), func(*p22) {}, func(s p22) string {
			m, l := s.m0, s.l0
			if c == 1 {
				m, l = s.m1, s.l1
			}
			return fmt.Sprintf("ProgramChange %02X [%d %d 0 0 0 0] ", 0xc0|c, int(m)<<7|int(l), prog)
		}}
	}
	evs = append(evs, pc(0, 3), pc(1, 127), pc(0, 0))
	for _, v := range vals {
		evs = append(evs,
			ev{ch(0, 0xb0, 0, v), func(s *p22) { s.m0 = v }, nil},
			ev{ch(0, 0xb0, 32, v), func(s *p22) { s.l0 = v }, nil},
			ev{ch(0, 0xb1, 0, v), func(s *p22) { s.m1 = v }, nil},
			ev{ch(0, 0xb1, 32, v), func(s *p22) { s.l1 = v }, nil},
		)
	}
	evs = append(evs,
		ev{ch(0, 0xb0, 0, 0), func(s *p22) { s.m0 = 0 }, nil},
		ev{ch(0, 0xb0, 32, 0), func(s *p22) { s.l0 = 0 }, nil},
		ev{ch(0, 0xb0, 1, 99), nil, nil}, ev{ch(0, 0xb0, 33, 99), nil, nil}, ev{ch(0, 0xb0, 64, 99), nil, nil}, ev{ch(0, 0xb0, 121, 0), nil, nil},
		ev{ch(0, 0xb2, 0, 55), nil, nil}, ev{ch(0, 0xb2, 32, 55), nil, nil},
		ev{ch(0, 0x90, 0, 44), nil, nil}, ev{ch(0, 0x80, 32, 44), nil, nil}, ev{ch(0, 0xe0, 0, 44), nil, nil}, ev{ch(0, 0xd0, 32), nil, nil}, ev{ch(0, 0xa0, 32), nil, nil},
		ev{meta(0, 0x20, []byte{1}), nil, nil}, ev{sysx(0, 0xf0, []byte{0x7e, 0x7f, 0x09, 0x01, 0xf7}), nil, nil}, ev{meta(0, 0x59, []byte{0xff, 0}), nil, nil},
	)
	m := Model[p22]{
		Events: len(evs),
		Probes: []int{0, 1},
		Bytes:  func(s p22, e int) []byte { return evs[e].b },
		Step: func(s p22, e int) (p22, string) {
			x := ""
			if evs[e].x != nil {
				x = evs[e].x(s)
			}
			if evs[e].f != nil {
				evs[e].f(&s)
			}
			return s, x
		},
	}
	explore(r, "banks of two channels", "model", "C3", m)
	// every value on every channel, other channels set to other values
	r.Par("every MSB x LSB x channel", 16*128*128, func(w *W, i int) bool {
		c, a, b := byte(i>>14), byte(i>>7&0x7f), byte(i&0x7f)
		o := (c + 1 + byte(i%15)) % 16
		return w.Case("body", cat(ch(0, 0xb0|o, 0, ^a&0x7f), ch(0, 0xb0|o, 32, ^b&0x7f), ch(0, 0xb0|c, 0, a), ch(0, 0xb0|c, 32, b), ch(0, 0xc0|c, 5), ch(0, 0xc0|o, 6), ch(0, 0xb0|c, 32, a), ch(0, 0xc0|c, 5), ch(0, 0xb0|c, 0, b), ch(0, 0xc0|c, 5)), "")
	})
	r.Par("every controller x value between bank select and program change", 128*128, func(w *W, i int) bool {
		return w.Case("body", cat(ch(0, 0xb4, 0, 11), ch(0, 0xb4, 32, 22), ch(0, 0xb4, byte(i>>7), byte(i&0x7f)), ch(0, 0xc4, 7), ch(0, 0xb5, byte(i>>7), byte(i&0x7f)), ch(0, 0xc4, 8), ch(0, 0xc5, 8)), "")
	})
	// up to 16 channels at once, in every rotation, by channel or all MSBs first, and again with other values
	r.Par("banks of up to 16 channels", 16*16*16*2, func(w *W, i int) bool {
		n, first, step, split := i&15+1, i>>4&15, i>>8&15|1, i>>12&1
		var b []byte
		for round := byte(0); round < 3; round++ {
			msb := func(c byte) []byte { return ch(0, 0xb0|c, 0, (c*7+1+round*20)&0x7f) }
			lsb := func(c byte) []byte { return ch(0, 0xb0|c, 32, (c*5+3+round*40)&0x7f) }
			for k := range n {
				c := byte((first + k*step) & 15)
				b = cat(b, msb(c))
				if split == 0 {
					b = cat(b, lsb(c), ch(0, 0xc0|c, 1))
				}
			}
			for k := range n {
				if split == 1 {
					b = cat(b, lsb(byte((first+k*step)&15)))
				}
			}
			for c := range byte(16) {
				b = cat(b, ch(0, 0xc0|c, c))
			}
		}
		return w.Case("body", b, "")
	})
	r.Par("every event of the alphabet between bank select and program change", len(alphabet()), func(w *W, i int) bool {
		return w.Case("body", cat(ch(0, 0xb0, 0, 11), ch(0, 0xb0, 32, 22), alphabet()[i].B, ch(0, 0xc0, 7)), "")
	})
	a := []Sym{}
	for _, b := range [][]byte{ch(0, 0xb0, 0, 1), ch(0, 0xb0, 32, 2), ch(0, 0xb1, 0, 3), ch(0, 0xb1, 32, 4), ch(0, 0xb0, 0, 0x7f), ch(0, 0x20, 0x40), ch(0, 0x00, 0x41), ch(0, 0xc0, 9), ch(0, 0xc1, 9), ch(0, 0x09), meta(0, 3, []byte("x")), ch(0, 0xb0, 7, 100)} {
		a = append(a, Sym{"", b})
	}
	seqs(r, "body", a, ifelse(r.Thorough(), 6, 5), "")
	k := len(a)
	stateScale(r, "body", "", cat(ch(0, 0xb0, 0, 11), ch(0, 0xb0, 32, 22), ch(0, 0xb9, 0, 33), ch(0, 0xb9, 32, 44)), cat(ch(0, 0xc0, 1), ch(0, 0xc9, 2)), 1025)
	r.Par("banks do not carry over to the next track", k*k*k, func(w *W, i int) bool {
		return w.Case("decode", fileN(1, 96, cat(a[i%k].B, a[i/k%k].B), cat(a[i/k/k].B, ch(0, 0xc0, 1), ch(0, 0xc1, 1))), "")
	})
	extremeTriples(r, "body", "", cat)
	for _, p := range []byte{0, 5, 127} {
		for _, c := range []byte{0, 9, 15} {
			deltaCross(r, "body", "", asIs, [][]byte{ch(0, 0xb0|c, 0, p+1&0x7f), ch(0, 0xb0|c, 32, p), ch(0, 0xc0|c, p), ch(0, 0xc0|c, 0)},
				[][]byte{ch(0, 0xb0|c, 0, 3), ch(0, 0xb0|c^1, 0, p), ch(0, 0xc0|c^1, p), ch(0, 0xc0|c, p)})
		}
	}
}
