package main

// Scale: the properties hold for files of any size, so the shared spaces of small files are complemented
// by files that are large in one respect: the number of times an event occurs, the number of tracks, the
// number of notes sounding at once, the length of a text, and the position of an event in the file.

import "fmt"

var scaleCounts = []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097}

type parFunc func(label string, n int, f func(w *W, i int) bool)

func upTo(max int) []int {
	out := []int{}
	for _, n := range scaleCounts {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// The well-formed single events of the alphabet (running status and continuations after the event they need).
func scaleSyms() []Sym {
	out := []Sym{}
	for _, s := range alphabet() {
		switch s.Name {
		case "eot", "unknown-meta", "bad-status", "sx-more", "sx-end", "sx-end0", "sx-esc0":
		case "run2":
			out = append(out, Sym{"run2", cat(ch(0, 0x93, 0x20, 0x21), s.B, ch(0, 0x34, 0x45))})
		case "run1":
			out = append(out, Sym{"run1", cat(ch(0, 0xc3, 0x20), s.B, ch(2, 0x23))})
		case "sx-open":
			out = append(out, Sym{"sx-packets", cat(s.B, sysx(100, 0xf7, []byte{0x43, 0x13, 0x01}), sysx(0, 0xf7, []byte{0x43, 0x14, 0xf7}))})
		default:
			out = append(out, s)
		}
	}
	return append(out, Sym{"esc", sysx(0, 0xf7, []byte{1, 2})}, Sym{"on/off", cat(ch(3, 0x95, 0x40, 0x41), ch(4, 0x85, 0x40, 0x41))})
}

func repeat(b []byte, n int) []byte {
	out := make([]byte, 0, len(b)*n)
	for i := 0; i < n; i++ {
		out = append(out, b...)
	}
	return out
}

func scaleCases(r *R, par parFunc, name, arg string, max int) {
	if r.Thorough() {
		max *= 4
	}
	syms, counts := scaleSyms(), upTo(max)
	all := everything()
	body := all[:len(all)-len(eot)]
	par(fmt.Sprintf("every event repeated up to %d times, then every kind of event %s", max, arg), len(syms)*len(counts), func(w *W, i int) bool {
		return w.Case(name, file1(repeat(syms[i/len(counts)].B, counts[i%len(counts)]), all), arg)
	})
	extremePairs(r, par, name, arg)
	par("every kind of event, repeated "+arg, 40, func(w *W, i int) bool {
		return w.Case(name, fileN(1, 96, tempoTrack(), cat(repeat(body, i+1), eot)), arg)
	})
	tracks := []int{}
	for n := 1; n <= 40; n++ {
		tracks = append(tracks, n)
	}
	for _, n := range []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000} {
		if n <= max {
			tracks = append(tracks, n)
		}
	}
	par("number of tracks "+arg, len(tracks), func(w *W, i int) bool {
		ts := [][]byte{tempoTrack()}
		for k := 1; k < tracks[i]; k++ {
			ts = append(ts, ifelse(k%17 == 16, all, melody(byte(k%16))))
		}
		return w.Case(name, fileN(1, 96, ts...), arg)
	})
	// ticks around the sizes of integers, reached with the longest deltas
	targets := []uint64{1 << 15, 1 << 16, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 3 << 32}
	par("ticks around powers of two "+arg, len(syms)*len(targets)*3, func(w *W, i int) bool {
		s, t, k := syms[i%len(syms)], targets[i/len(syms)%len(targets)], uint64(i/len(syms)/len(targets))
		pre := []byte{}
		for rest := t - []uint64{1, 100, 2000}[k]; rest > 0; {
			d := min(rest, 1<<28-1)
			pre = append(pre, meta(uint32(d), 6, []byte("m"))...)
			rest -= d
		}
		return w.Case(name, fileN(1, 96, tempoTrack(), cat(pre, s.B, all)), arg) && w.Case(name, fileN(0, 96, cat(s.B, pre, s.B, s.B, all)), arg)
	})
	if name != "notes" { // (times beyond 250 years)
		far := []int{4095, 4096, 4097, 20000}
		par("ticks beyond 2^40 "+arg, len(far), func(w *W, i int) bool {
			return w.Case(name, file1(repeat(ch(1<<28-1, 0x90, 60, 0), far[i]), all), arg) && w.Case(name, file1(repeat(meta(1<<28-1, 6, nil), far[i]), all), arg)
		})
	}
	long := [][]byte{
		file1(repeat(cat(ch(1, 0x93, 60, 1), ch(1, 0x83, 60, 1)), 33000), all),
		file1(repeat(cat(meta(0, 1, []byte("x")), ch(0, 0xb2, 7, 1)), 16500), all),
		fileN(1, 96, tempoTrack(), melody(1), cat(repeat(ch(2, 0xc3, 5), 66000), all), melody(2)),
		fileN(1, 96, append([][]byte{tempoTrack()}, many(33000)...)...),
	}
	if arg == "tabular" {
		long = long[:3] // (a table of 231000 columns of fixed width)
	}
	if name == "decode" || name == "binary" {
		huge := [][]byte{
			file1(meta(5, 1, fill(1<<24+5)), all),
			file1(ch(0, 0x90, 1, 1), sysx(3, 0xf0, cat([]byte{0x43}, fill(1<<24+70), []byte{0xf7})), ch(0, 0x91, 1, 1), all),
			fileN(1, 96, cat(repeat(meta(0, 6, fill(1<<20)), 17), all), melody(2)),
		}
		par("very large events "+arg, len(huge), func(w *W, i int) bool { return w.Case(name, huge[i], arg) })
	}
	par("very many events, very many tracks "+arg, len(long), func(w *W, i int) bool { return w.Case(name, long[i], arg) })
	par("SysEx packets with many events between them "+arg, len(counts)*2, func(w *W, i int) bool {
		n := repeat(ifelse(i%2 == 0, ch(1, 0x93, 60, 1), meta(0, 1, []byte("x"))), counts[i/2])
		return w.Case(name, file1(ch(0, 0x90, 1, 1), sysx(0, 0xf0, []byte{0x43, 1}), n, sysx(1, 0xf7, []byte{2}), n, sysx(0, 0xf7, []byte{3, 0xf7}), n, sysx(0, 0xf7, []byte{4}), all), arg)
	})
	// positions in the file: every kind of event across every multiple of common buffer sizes
	edges := []int{}
	for _, e := range []int{512, 1024, 4096, 8192, 65536} {
		if e <= 64*max {
			edges = append(edges, e)
		}
	}
	par("positions around buffer sizes "+arg, len(edges)*(len(all)+40), func(w *W, i int) bool {
		e, k := edges[i%len(edges)], i/len(edges)
		return w.Case(name, file1(meta(0, 1, fill(e-k)), all), arg)
	})
	n := ifelse(r.Thorough(), 1200, 400)
	par("every length of every kind of data "+arg, 12*n, func(w *W, i int) bool {
		t, l := i%12, i/12
		var e []byte
		switch t {
		case 9:
			e = meta(3, 0x7f, append([]byte{0x43}, fill(l)...))
		case 10:
			e = sysx(3, 0xf0, cat([]byte{0x43}, fill(l), []byte{0xf7}))
		case 11:
			e = cat(sysx(3, 0xf7, fill(l)), sysx(3, 0xf0, cat([]byte{0x43}, fill(l))), sysx(3, 0xf7, fill(l)), sysx(3, 0xf7, cat(fill(l), []byte{0xf7})))
		default:
			e = meta(3, textTypes[t], fill(l))
		}
		return w.Case(name, file1(ch(0, 0x90, 1, 2), e, ch(1, 0x90, 3, 4), e, eot), arg)
	})
	large := []int{16383, 16384, 65535, 65536, 1<<21 - 1, 1 << 21}
	if max < 1024 {
		large = large[:4]
	}
	par("large data "+arg, 4*len(large), func(w *W, i int) bool {
		d := fill(large[i/4] - i%4)
		e := [][]byte{meta(3, 1, d), meta(3, 0x7f, append([]byte{0x43}, d...)), sysx(3, 0xf0, cat([]byte{0x43}, d, []byte{0xf7})), cat(sysx(3, 0xf0, []byte{0x43, 1}), sysx(3, 0xf7, cat(d, []byte{0xf7})))}[i%4]
		return w.Case(name, file1(ch(0, 0x90, 1, 2), e, ch(1, 0x90, 3, 4), eot), arg)
	})
	// many notes at once
	par("notes sounding at once "+arg, 5*len(counts), func(w *W, i int) bool {
		k := counts[i/5]
		on, off := []byte{}, []byte{}
		for j := 0; j < min(k, 2048); j++ {
			c, n := byte(j%16), byte(j/16%128)
			on = append(on, ch(uint32(j%3), 0x90|c, n, byte(1+j%127))...)
			switch i % 5 {
			case 0: // same order
				off = append(off, ch(uint32(j%5), 0x80|c, n, 0x40)...)
			case 1: // reverse order
				off = append(ch(uint32(j%5), 0x80|c, n, 0x40), off...)
			case 2: // velocity 0
				off = append(off, ch(0, 0x90|c, n, 0)...)
			case 3: // another order
				x := (j*7 + 3) % 2048
				off = append(off, ch(1, 0x80|byte(x%16), byte(x/16), 0)...)
			}
		}
		return w.Case(name, fileN(i/5%2, 96, cat(on, off, []byte{9, 0xff, 0x2f, 0})), arg) && w.Case(name, fileN(1, 96, tempoTrack(), cat(on, off, []byte{9, 0xff, 0x2f, 0})), arg)
	})
}

// The decoder's state after many events: set a state, repeat an event n times, use the state.
func stateScale(r *R, name, arg string, set, use []byte, max int) {
	syms, counts := scaleSyms(), upTo(ifelse(r.Thorough(), 4097, max))
	r.Par("state kept over repeated events "+arg, len(syms)*len(counts), func(w *W, i int) bool {
		return w.Case(name, cat(set, repeat(syms[i/len(counts)].B, counts[i%len(counts)]), use), arg)
	})
	r.Par("state set repeatedly "+arg, len(counts), func(w *W, i int) bool {
		return w.Case(name, cat(repeat(cat(set, use), counts[i]), use), arg)
	})
}

// Texts that a program might be tempted to normalise: byte order marks, line ends, blanks, zero bytes, combining
// characters, the limits of every UTF-8 length, invalid UTF-8.
func rawTexts() []string {
	parts := []string{"\xef\xbb\xbf", "\r\n", "\n", "\r", "\x00", " ", "\t", "\x1a", "\x1b[1m", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\ufffd", "\ud7ff", "\ue000",
		"\u00e9", "e\u0301", "\u2028", "\u2029", "\u0085", "\u00a0", "\u200b", "\u200d", "\u3000", "\xff", "\xff\x2f\x00", "\x00\xff\x2f\x00", "MTrk", "MThd\x00\x00\x00\x06", "\xf7", "\xf0\x43\xf7", "\x90\x3c\x40", "\xc3", "\xc3\x28", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xe9", "\\", "\"", "'", "\b", "\f", "\v", "<", "&", "%", "{{", "}}", "\\u0041", "\\x41", "\\r\\n", "&lt;", "%41"}
	out := append([]string{}, trickyTexts()...)
	for _, p := range parts {
		out = append(out, p, p+"a", "a"+p, "a"+p+"b", p+p, "a"+p+p+"b", p+"a"+p, "ab"+p+"cd"+p+"ef")
	}
	for _, p := range parts[:12] {
		for _, q := range parts[:12] {
			out = append(out, p+q, "a"+p+q, "a"+p+"b"+q+"c")
		}
	}
	return out
}

func rawTextCases(r *R, par parFunc, name, arg string) {
	ts := rawTexts()
	par("texts that invite normalisation "+arg, len(ts)*9, func(w *W, i int) bool {
		t := []byte(ts[i/9])
		return w.Case(name, file1(ch(0, 0x90, 1, 1), meta(3, textTypes[i%9], t), ch(0, 0x90, 1, 1), meta(0, textTypes[(i+1)%9], t), eot), arg)
	})
	par("data that invites normalisation "+arg, len(ts), func(w *W, i int) bool {
		t := []byte(ts[i])
		return w.Case(name, file1(meta(0, 0x7f, append([]byte{0x43}, t...)), meta(0, 0x7f, append([]byte{0, 0, 0x3b}, t...)), sysx(0, 0xf0, cat([]byte{0x43}, t, []byte{0xf7})), sysx(0, 0xf7, t), eot), arg)
	})
}

// Times between events: every combination of short and long deltas for the events of a sequence (given with
// delta 0), at most four of them varied.
var crossDeltas = []uint32{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff}

func deltaCross(r *R, name, arg string, wrap func([]byte) []byte, lists ...[][]byte) {
	for li, l := range lists {
		n := 1
		for i := 0; i < len(l) && i < 4; i++ {
			n *= len(crossDeltas)
		}
		r.Par(fmt.Sprintf("sequence %d x deltas %s", li, arg), n, func(w *W, i int) bool {
			out := []byte{}
			for _, e := range l {
				if e[0] != 0 {
					panic("delta")
				}
				out = append(append(out, vlq(crossDeltas[i%len(crossDeltas)])...), e[1:]...)
				i /= len(crossDeltas)
			}
			return w.Case(name, wrap(out), arg)
		})
	}
}

func asIs(b []byte) []byte { return b }

// Extremes: every kind of event with its fields at their limits (without delta).
func extremes() [][]byte {
	out := [][]byte{}
	add := func(b ...byte) { out = append(out, append([]byte{}, b...)) }
	for _, c := range []byte{0, 15} {
		for _, st := range []byte{0x80, 0x90} {
			for _, n := range []byte{0, 60, 127} {
				add(st|c, n, 0)
				add(st|c, n, 127)
			}
		}
		for _, v := range []byte{0, 127} {
			add(0xa0|c, v)
			add(0xc0|c, v)
			add(0xd0|c, v)
			for _, n := range []byte{0, 32, 64, 121, 123, 127} {
				add(0xb0|c, n, v)
			}
			add(0xe0|c, v, v)
			add(0xe0|c, v, 0x40)
		}
	}
	add(0, 0)
	add(127, 127)
	add(0)
	add(127)
	for _, t := range textTypes {
		out = append(out, mevt(t), mevt(t, 'x'), mevt(t, fill(128)...))
	}
	for _, m := range [][]byte{{0, 0, 0}, {0, 255, 255}, {0x20, 0}, {0x20, 15}, {0x21, 0}, {0x21, 127}, {0x51, 0, 0, 0}, {0x51, 0, 0, 1}, {0x51, 7, 0xa1, 0x20}, {0x51, 255, 255, 255}, {0x54, 0, 0, 0, 0, 0}, {0x54, 0x77, 59, 59, 29, 99}, {0x58, 1, 0, 0, 0}, {0x58, 255, 7, 255, 255},
		{0x59, 0xf9, 0}, {0x59, 0, 0}, {0x59, 0, 1}, {0x59, 7, 1}, {0x7f, 0x43}, {0x7f, 0, 0, 0x3b}, {0x7f, 0x43, 0, 255}, {0x2f}} {
		out = append(out, mevt(m[0], m[1:]...))
	}
	return append(out, sevt(0xf0, 0x43, 0xf7), sevt(0xf0, 0x43, 0x12), sevt(0xf7, 0xf7), sevt(0xf7, 1), sevt(0xf7), sevt(0xf0, append(append([]byte{0x43}, fill(126)...), 0xf7)...))
}

// Every pair of extremes, at the start of the only track and far apart in the second track.
func extremePairs(r *R, par parFunc, name, arg string) {
	e := extremes()
	k := len(e)
	far := vlq(0x4000)
	par("pairs of events at their limits "+arg, k*k, func(w *W, i int) bool {
		a, b := e[i/k], e[i%k]
		return w.Case(name, file1([]byte{0}, a, []byte{0}, b, eot), arg) && w.Case(name, fileN(1, 96, tempoTrack(), cat(far, a, far, b, eot)), arg)
	})
}

func extremeTriples(r *R, name, arg string, wrap func(...[]byte) []byte) {
	e := extremes()
	k := len(e)
	far := vlq(0x4000)
	r.Par("triples of events at their limits "+arg, k*k*k, func(w *W, i int) bool {
		a, b, c := e[i/k/k], e[i/k%k], e[i%k]
		return w.Case(name, wrap([]byte{0}, a, []byte{0}, b, far, c), arg)
	})
}

// many is n tracks with a few events each.
func many(n int) (out [][]byte) {
	for i := range n {
		out = append(out, cat(ch(uint32(i&0x7f), byte(0x90|i&15), byte(i&127), 1), ch(1, byte(0x80|i&15), byte(i&127), 1), eot))
	}
	return
}
