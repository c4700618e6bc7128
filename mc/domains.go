package main

// The bounded spaces of inputs: the full data domain of every event kind, an alphabet with every kind
// for event sequences, and a corpus of files.

import "fmt"

// A domain: n well-formed events (without delta) of one kind.
type Domain struct {
	Name string
	Kind Kind
	N    int
	At   func(i int) []byte
}

func (d Domain) stride(n int) Domain { // every n-th element (n coprime to the dimensions)
	f := d.At
	return Domain{d.Name + fmt.Sprintf("/%d", n), d.Kind, d.N / n, func(i int) []byte { return f(i * n) }}
}

func chan2(name string, k Kind, status byte) Domain {
	return Domain{name, k, 16 * 128 * 128, func(i int) []byte { return []byte{status | byte(i>>14), byte(i >> 7 & 0x7f), byte(i & 0x7f)} }}
}

func chan1(name string, k Kind, status byte) Domain {
	return Domain{name, k, 16 * 128, func(i int) []byte { return []byte{status | byte(i>>7), byte(i & 0x7f)} }}
}

var textTypes = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}

func mevt(typ byte, data ...byte) []byte { return cat([]byte{0xff, typ}, vlq(uint32(len(data))), data) }
func sevt(st byte, data ...byte) []byte  { return cat([]byte{st}, vlq(uint32(len(data))), data) }

// All pairs of values of k fields with the given domains, the other fields at their defaults.
func pairs(dims []int, def []int) [][]int {
	out := [][]int{}
	for a := 0; a < len(dims); a++ {
		for b := a + 1; b < len(dims); b++ {
			for x := 0; x < dims[a]; x++ {
				for y := 0; y < dims[b]; y++ {
					v := append([]int{}, def...)
					v[a], v[b] = x, y
					out = append(out, v)
				}
			}
		}
	}
	return out
}

var smpteVals = func() [][]byte {
	out := [][]byte{}
	rates := []int{24, 25, 29, 30}
	for _, v := range pairs([]int{25, 60, 60, 4, 30, 101}, []int{13, 45, 59, 1, 7, 39}) {
		if v[4] < rates[v[3]] {
			out = append(out, []byte{byte(v[0] | v[3]<<5), byte(v[1]), byte(v[2]), byte(v[4]), byte(v[5])})
		}
	}
	return out
}()

var timesigVals = func() [][]byte {
	out := [][]byte{}
	for _, v := range pairs([]int{256, 8, 256, 256}, []int{4, 2, 24, 8}) {
		out = append(out, []byte{byte(v[0]), byte(v[1]), byte(v[2]), byte(v[3])})
	}
	return out
}()

func pattern(n int, f func(i int) byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = f(i)
	}
	return b
}

// printable filler
func fill(n int) []byte { return pattern(n, func(i int) byte { return 'a' + byte(i%26) }) }

var dataLengths = []int{0, 1, 2, 3, 4, 12, 13, 14, 15, 30, 63, 64, 126, 127, 128, 129, 130, 200, 255, 256, 257, 1000, 4095, 4096, 16382, 16383, 16384, 16385, 20000, 70000}

// The domains. tempo is the full 24 bit domain.
func domains() []Domain {
	ds := []Domain{
		chan2("NoteOff", kNoteOff, 0x80),
		chan2("NoteOn", kNoteOn, 0x90),
		chan1("PolyphonicPressure", kPolyphonicPressure, 0xa0),
		chan2("Controller", kController, 0xb0),
		chan1("ProgramChange", kProgramChange, 0xc0),
		chan1("ChannelPressure", kChannelPressure, 0xd0),
		chan2("PitchBend", kPitchBend, 0xe0),
		{"SequenceNumber", kSequenceNumber, 65536, func(i int) []byte { return mevt(0, byte(i>>8), byte(i)) }},
		{"MIDIChannelPrefix", kMIDIChannelPrefix, 16, func(i int) []byte { return mevt(0x20, byte(i)) }},
		{"MIDIPort", kMIDIPort, 128, func(i int) []byte { return mevt(0x21, byte(i)) }},
		{"SMPTEOffset", kSMPTEOffset, len(smpteVals), func(i int) []byte { return mevt(0x54, smpteVals[i]...) }},
		{"TimeSignature", kTimeSignature, len(timesigVals), func(i int) []byte { return mevt(0x58, timesigVals[i]...) }},
		{"KeySignature", kKeySignature, 30, func(i int) []byte { return mevt(0x59, byte(int8(i/2-7)), byte(i%2)) }},
		{"SequencerSpecific/id1", kSequencerSpecific, 255, func(i int) []byte { return mevt(0x7f, byte(i+1), 0x11, 0x22) }},
		{"SequencerSpecific/id3", kSequencerSpecific, 65536, func(i int) []byte { return mevt(0x7f, 0, byte(i>>8), byte(i), 0x33) }},
		{"SysExMessage/id", kSysExMessage, 256, func(i int) []byte { return sevt(0xf0, byte(i), 0x01, 0x02, 0xf7) }},
		{"SysExMessage/id long", kSysExMessage, 1024, func(i int) []byte {
			return sevt(0xf0, [][]byte{{byte(i), 1, 2, 3, 4, 5, 6, 0xf7}, {0, 0, byte(i), 1, 2, 3, 0xf7}, {0, 0x20, byte(i), 1, 0xf7}, {0, byte(i), 0x10, 4, 5, 6, 7, 8, 0xf7}}[i/256]...)
		}},
		{"SysExMessage/data", kSysExMessage, 256, func(i int) []byte { return sevt(0xf0, 0x43, byte(i), byte(i), 0xf7) }},
		{"SysExContinuation/data", kSysExContinuation, 256, func(i int) []byte {
			return cat(sevt(0xf0, 0x43, 0x12), []byte{0}, sevt(0xf7, byte(i), byte(i), 0xf7))
		}},
		{"SysExEscape/data", kSysExEscape, 256, func(i int) []byte { return sevt(0xf7, 0xf3, byte(i)) }},
		{"Text/byte", kText, 9 * 256, func(i int) []byte { return mevt(textTypes[i/256], byte(i)) }},
		{"Text/2 bytes", kText, 9 * 65536, func(i int) []byte { return mevt(1+byte(i>>16), byte(i>>8), byte(i)) }},
	}
	n := len(dataLengths)
	ds = append(ds,
		Domain{"Text/length", kText, 9 * n, func(i int) []byte { return mevt(textTypes[i/n], fill(dataLengths[i%n])...) }},
		Domain{"SequencerSpecific/length", kSequencerSpecific, 2 * n, func(i int) []byte {
			id := []byte{0x43}
			if i/n == 1 {
				id = []byte{0, 0, 0x3b}
			}
			return mevt(0x7f, append(id, fill(dataLengths[i%n])...)...)
		}},
		Domain{"SysExMessage/length", kSysExMessage, n, func(i int) []byte {
			return sevt(0xf0, append(append([]byte{0x43}, fill(dataLengths[i])...), 0xf7)...)
		}},
		Domain{"SysExEscape/length", kSysExEscape, n, func(i int) []byte { return sevt(0xf7, fill(dataLengths[i])...) }},
		Domain{"SysExContinuation/length", kSysExContinuation, n, func(i int) []byte {
			return cat(sevt(0xf0, 0x43, 0x12), []byte{0}, sevt(0xf7, fill(dataLengths[i])...), []byte{0}, sevt(0xf7, append(fill(dataLengths[i]), 0xf7)...))
		}},
	)
	return ds
}

var tempoDomain = Domain{"Tempo", kTempo, 1 << 24, func(i int) []byte { return mevt(0x51, byte(i>>16), byte(i>>8), byte(i)) }}

// Tempos: every value of each byte with the others at boundary values.
var tempoSome = func() Domain {
	vals := [][]byte{}
	edge := []byte{0, 1, 0x7f, 0x80, 0xff, 0x20, 0xa1}
	for _, x := range edge {
		for _, y := range edge {
			for z := 0; z < 256; z++ {
				vals = append(vals, []byte{byte(z), x, y}, []byte{x, byte(z), y}, []byte{x, y, byte(z)})
			}
		}
	}
	return Domain{"Tempo/edges", kTempo, len(vals), func(i int) []byte { return mevt(0x51, vals[i]...) }}
}()

// The events i..i+n-1 of a domain as a track, with deltas that cycle over one to three bytes.
func (d Domain) track(i, n int) []byte {
	b := []byte{}
	for k := i; k < i+n && k < d.N; k++ {
		b = append(b, vlq(uint32(k%5)*uint32(k%7)*600)...)
		b = append(b, d.At(k)...)
	}
	return append(b, eot...)
}

// ---- alphabet: concrete events with their deltas, every kind, for event sequences

type Sym struct {
	Name string
	B    []byte // with delta
}

func alphabet() []Sym {
	return []Sym{
		{"seqno", meta(0, 0x00, []byte{0x12, 0x34})},
		{"text", meta(3, 0x01, []byte("some text"))},
		{"copyright", meta(0, 0x02, []byte("(c) them"))},
		{"trackname", meta(0, 0x03, []byte("Track 1"))},
		{"instrument", meta(0, 0x04, []byte("Piano"))},
		{"lyric", meta(200, 0x05, []byte("la la"))},
		{"marker", meta(0, 0x06, []byte("here"))},
		{"cue", meta(0, 0x07, []byte("now"))},
		{"program", meta(0, 0x08, []byte("Prog"))},
		{"device", meta(0, 0x09, []byte("Dev"))},
		{"prefix", meta(0, 0x20, []byte{13})},
		{"port", meta(0, 0x21, []byte{112})},
		{"tempo", meta(0, 0x51, []byte{0x07, 0xa1, 0x20})},
		{"tempo2", meta(96, 0x51, []byte{0x04, 0x93, 0xe0})},
		{"smpte", meta(0, 0x54, []byte{0x4d, 45, 59, 7, 39})},
		{"timesig", meta(0, 0x58, []byte{3, 2, 24, 8})},
		{"key-major", meta(0, 0x59, []byte{0x02, 0x00})},
		{"key-minor", meta(0, 0x59, []byte{0xfd, 0x01})},
		{"seqspec", meta(0, 0x7f, []byte{0x00, 0x00, 0x3b, 1, 2})},
		{"eot", meta(0, 0x2f, nil)},
		{"on0", ch(0, 0x90, 0x31, 0x48)},
		{"on0v0", ch(10, 0x90, 0x31, 0x00)},
		{"on0b", ch(0, 0x90, 0x3c, 0x7f)},
		{"on2", ch(0, 0x92, 0x31, 0x48)},
		{"off0", ch(480, 0x80, 0x31, 0x40)},
		{"off2", ch(1, 0x82, 0x31, 0x40)},
		{"poly", ch(0, 0xa3, 0x64)},
		{"msb0", ch(0, 0xb0, 0x00, 0x05)},
		{"lsb0", ch(0, 0xb0, 0x20, 0x21)},
		{"lsb1", ch(0, 0xb1, 0x20, 0x22)},
		{"ctrl", ch(0, 0xb0, 0x65, 0x03)},
		{"pc0", ch(0, 0xc0, 0x19)},
		{"pc1", ch(0, 0xc1, 0x1a)},
		{"cp", ch(0, 0xd4, 0x07)},
		{"bend", ch(20000, 0xe5, 0x12, 0x08)},
		{"run2", ch(5, 0x33, 0x44)},
		{"run1", ch(0, 0x22)},
		{"sx-single", sysx(0, 0xf0, []byte{0x7e, 0x00, 0x09, 0x01, 0xf7})},
		{"sx-open", sysx(0, 0xf0, []byte{0x43, 0x12, 0x00})},
		{"sx-more", sysx(100, 0xf7, []byte{0x43, 0x13, 0x01})},
		{"sx-end", sysx(0, 0xf7, []byte{0x43, 0x14, 0xf7})},
		{"sx-end0", sysx(0, 0xf7, []byte{0xf7})},
		{"sx-esc0", sysx(0, 0xf7, nil)},
		{"unknown-meta", meta(0, 0x60, []byte{1})},
		{"bad-status", []byte{0x00, 0xf4}},
	}
}

// Words over an alphabet of k symbols of length 0..n: count and decoding.
func words(k, n int) int {
	t, p := 0, 1
	for i := 0; i <= n; i++ {
		t += p
		p *= k
	}
	return t
}

func word(k, i int, buf []int) []int {
	buf = buf[:0]
	n, p := 0, 1
	for i >= p {
		i -= p
		p *= k
		n++
	}
	for j := 0; j < n; j++ {
		buf = append(buf, i%k)
		i /= k
	}
	return buf
}

func join(syms []Sym, w []int) []byte {
	b := []byte{}
	for _, i := range w {
		b = append(b, syms[i].B...)
	}
	return b
}

// ---- corpus

// A track with every kind of event.
func everything() []byte {
	return cat(
		meta(0, 0x00, []byte{0, 0x17}),
		meta(0, 0x01, []byte("This and That")),
		meta(0, 0x02, []byte("Them")),
		meta(0, 0x03, []byte("Acoustic Guitar")),
		meta(0, 0x04, []byte("Didgeridoo")),
		meta(0, 0x05, []byte("La-la-la")),
		meta(0, 0x06, []byte("Here Be Dragons")),
		meta(0, 0x07, []byte("More cowbell")),
		meta(0, 0x08, []byte("Escape")),
		meta(0, 0x09, []byte("TheThing")),
		meta(0, 0x20, []byte{13}),
		meta(0, 0x21, []byte{112}),
		meta(0, 0x51, []byte{0x07, 0xa1, 0x20}),
		meta(0, 0x54, []byte{0x2d, 45, 59, 7, 39}),
		meta(0, 0x58, []byte{4, 2, 24, 8}),
		meta(0, 0x59, []byte{0xfe, 0x00}),
		meta(0, 0x7f, []byte{0x00, 0x00, 0x3b, 0x3a, 0x4c, 0x5e}),
		ch(0, 0xb0, 0x00, 0x05),
		ch(0, 0xb0, 0x20, 0x21),
		ch(0, 0xc0, 0x19),
		ch(0, 0xb0, 0x65, 0x00),
		ch(0, 0xa0, 0x64),
		ch(0, 0xd0, 0x07),
		ch(0, 0x90, 0x31, 0x48),
		ch(0, 0x92, 0x31, 0x48),
		ch(0, 0x30, 0x64),
		ch(240, 0xe0, 0x00, 0x08),
		ch(480, 0x80, 0x31, 0x40),
		ch(1, 0x82, 0x31, 0x40),
		sysx(0, 0xf0, []byte{0x7e, 0x00, 0x09, 0x01, 0xf7}),
		sysx(0, 0xf0, []byte{0x43, 0x12, 0x00}),
		sysx(200, 0xf7, []byte{0x43, 0x12, 0x00, 0x43, 0x12, 0x00}),
		sysx(100, 0xf7, []byte{0x43, 0x12, 0x00, 0xf7}),
		sysx(0, 0xf7, []byte{0xf3, 0x01}),
		meta(5, 0x51, []byte{0x0b, 0x71, 0xb0}),
		eot,
	)
}

func tempoTrack() []byte {
	return cat(meta(0, 0x03, []byte("Example 1")), meta(0, 0x51, []byte{0x07, 0xa1, 0x20}), meta(0, 0x58, []byte{4, 2, 24, 8}), meta(0, 0x54, []byte{0x2d, 45, 59, 7, 39}), eot)
}

func melody(c byte) []byte {
	return cat(meta(0, 0x03, []byte("Melody")), ch(0, 0xb0|c, 0, 1), ch(0, 0xb0|c, 32, 2), ch(0, 0xc0|c, 40),
		ch(0, 0x90|c, 60, 64), ch(96, 0x80|c, 60, 64), ch(0, 0x90|c, 61, 64), ch(96, 61, 0), meta(0, 0x59, []byte{0xfc, 1}), ch(0, 0x90|c, 61, 70), ch(300, 0x80|c, 61, 0), meta(10, 0x2f, nil))
}

type Named struct {
	Name string
	B    []byte
}

func corpus() []Named {
	big := cat(meta(0, 0x01, fill(300)), sysx(0, 0xf0, append(append([]byte{0x41}, fill(200)...), 0xf7)), ch(2000000, 0x90, 1, 1), ch(200000000, 0x80, 1, 1), eot)
	return []Named{
		{"everything", fileN(0, 480, everything())},
		{"format1", fileN(1, 480, tempoTrack(), everything())},
		{"three tracks", fileN(1, 96, tempoTrack(), melody(0), melody(9))},
		{"format2", fileN(2, 96, melody(1), melody(2))},
		{"one event", file1(eot)},
		{"no tracks", hdr(1, 0, 96)},
		{"empty track", fileN(1, 96, nil, eot)},
		{"smpte", fileN(1, 0xe728, tempoTrack(), melody(3))},
		{"foreign chunks", cat(hdr(1, 2, 96), chunkOf("XFIH", []byte("hello")), mtrk(tempoTrack()), chunkOf("XFKM", nil), mtrk(melody(5)), chunkOf("JUNK", fill(40)))},
		{"big", file1(big)},
		{"no end of track", file1(ch(0, 0x90, 60, 1), ch(5, 60, 0))},
		{"long track", file1(chan2("", kNoteOn, 0x90).track(0, 300))},
	}
}
