package main

// An independent reference for Standard MIDI Files: a byte-level parser written from the SMF
// specification and the project's documentation (README and the documented listing), with its own
// tables. It shares no code with /repo.

import (
	"bytes"
	"fmt"
	"strings"
)

type Kind uint8

const (
	kNone Kind = iota
	kSequenceNumber
	kText
	kCopyright
	kTrackName
	kInstrumentName
	kLyric
	kMarker
	kCuePoint
	kProgramName
	kDeviceName
	kMIDIChannelPrefix
	kMIDIPort
	kEndOfTrack
	kTempo
	kSMPTEOffset
	kTimeSignature
	kKeySignature
	kSequencerSpecific
	kNoteOff
	kNoteOn
	kPolyphonicPressure
	kController
	kProgramChange
	kChannelPressure
	kPitchBend
	kSysExMessage
	kSysExContinuation
	kSysExEscape
	nKinds
)

var kindTag = [nKinds]string{"", "SequenceNumber", "Text", "Copyright", "TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint",
	"ProgramName", "DeviceName", "MIDIChannelPrefix", "MIDIPort", "EndOfTrack", "Tempo", "SMPTEOffset", "TimeSignature", "KeySignature",
	"SequencerSpecificEvent", "NoteOff", "NoteOn", "PolyphonicPressure", "Controller", "ProgramChange", "ChannelPressure", "PitchBend",
	"SysExMessage", "SysExContinuation", "SysExEscape"}

func (k Kind) String() string { return kindTag[k] }

// An event: what a user sees of it.
//
//	note on/off       V: key, velocity; S: name
//	poly/chan press.  V: pressure
//	controller        V: id, value; S: name
//	program change    V: bank, program
//	pitch bend        V: bend
//	sequence number, prefix, port, tempo   V: value
//	SMPTE offset      V: hour, minute, second, frame rate, frames, fractional frames
//	time signature    V: numerator, denominator, ticks/click, 32nds/quarter
//	key signature     V: accidentals, type; S: key
//	texts             S: text
//	sequencer spec.   V: length of the manufacturer id; S: region, name; Data: id and data
//	SysEx             V: 1 if terminated; S: region, name; Data: id and data, without the terminator
//	continuation      V: 1 if last; Data
//	escape            Data
type Ev struct {
	Tick    uint64
	Delta   uint32
	Raw     []byte // delta, status (if present) and data as in the file
	Kind    Kind
	Status  byte
	Ch      uint8
	V       [6]int32
	S       string
	Data    []byte
	AnyName bool // reference only: the note name is one of two and either will do
}

func (e Ev) String() string {
	return fmt.Sprintf("{tick:%d delta:%d %v status:%02X ch:%d %v %q data:% X raw:% X}", e.Tick, e.Delta, e.Kind, e.Status, e.Ch, e.V, e.S, clip(e.Data), clip(e.Raw))
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

type Verdict uint8

const (
	Accept Verdict = iota
	Reject
	Unspecified
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

type File struct {
	Format   uint16
	Tracks   uint16
	Division uint16
	Trk      [][]Ev
}

// ---- tables

var sharpNames = [12]string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}
var flatNames = [12]string{"C", "D♭", "D", "E♭", "E", "F", "G♭", "G", "A♭", "A", "B♭", "B"}

// base: octave number of notes 0..11 (-1 with the default middle C, -2 otherwise)
func noteName(n int, flats bool, base int) string {
	if flats {
		return fmt.Sprintf("%s%d", flatNames[n%12], n/12+base)
	}
	return fmt.Sprintf("%s%d", sharpNames[n%12], n/12+base)
}

var majorKeys = [15]string{"C♭ major", "G♭ major", "D♭ major", "A♭ major", "E♭ major", "B♭ major", "F major", "C major", "G major", "D major", "A major", "E major", "B major", "F♯ major", "C♯ major"}
var minorKeys = [15]string{"A♭ minor", "E♭ minor", "B♭ minor", "F minor", "C minor", "G minor", "D minor", "A minor", "E minor", "B minor", "F♯ minor", "C♯ minor", "G♯ minor", "D♯ minor", "A♯ minor"}

func keyName(acc int, typ int) string {
	if typ == 0 {
		return majorKeys[acc+7]
	}
	return minorKeys[acc+7]
}

// ---- parser

type refState struct {
	running byte
	open    bool
	flats   bool
	bank    [16]int32
	names   map[int]string // sounding notes
	last    map[int]string // name at the most recent note-on
}

func readVLQ(b []byte) (v uint32, n int, verdict Verdict) {
	for i, x := range b {
		if i == 4 {
			return 0, 0, Unspecified
		}
		v = v<<7 | uint32(x&0x7f)
		if x < 0x80 {
			return v, i + 1, Accept
		}
	}
	if len(b) > 4 {
		return 0, 0, Unspecified
	}
	return 0, 0, Reject
}

// Octave of notes 0..11 for the middle C convention in force.
var refBase = -1

// Parses the body of a track. On Reject/Unspecified the reason is given.
func refTrack(body []byte) ([]Ev, Verdict, string) {
	st := refState{names: map[int]string{}, last: map[int]string{}}
	evs := []Ev{}
	tick := uint64(0)
	p := 0
	for p < len(body) {
		start := p
		delta, n, v := readVLQ(body[p:])
		if v != Accept {
			return nil, v, "delta"
		}
		p += n
		tick += uint64(delta)
		if p >= len(body) {
			return nil, Reject, "truncated after delta"
		}
		e := Ev{Tick: tick, Delta: delta}
		status := body[p]
		if status < 0x80 {
			if st.running == 0 {
				return nil, Reject, "no running status"
			}
			status = st.running
		} else {
			p++
		}
		e.Status = status
		switch {
		case status == 0xff:
			st.running = 0
			if p >= len(body) {
				return nil, Reject, "truncated meta"
			}
			typ := body[p]
			p++
			data, n, v := readVLF(body[p:])
			if v != Accept {
				return nil, v, "meta length"
			}
			p += n
			if typ >= 0x80 {
				return nil, Unspecified, "meta type"
			}
			if v, why := refMeta(&e, typ, data, &st); v != Accept {
				return nil, v, why
			}
		case status == 0xf0 || status == 0xf7:
			st.running = 0
			data, n, v := readVLF(body[p:])
			if v != Accept {
				return nil, v, "sysex length"
			}
			p += n
			end := len(data) > 0 && data[len(data)-1] == 0xf7
			switch {
			case status == 0xf0:
				if st.open {
					return nil, Reject, "F0 while open"
				}
				if len(data) == 0 {
					return nil, Reject, "empty sysex"
				}
				if len(data) == 1 && end {
					return nil, Unspecified, "sysex without manufacturer"
				}
				e.Kind = kSysExMessage
				e.S = refManufacturer(data[:1])
				e.Data = data
				if end {
					e.V[0] = 1
					e.Data = data[:len(data)-1]
				}
				st.open = !end
			case st.open:
				e.Kind = kSysExContinuation
				e.Data = data
				if end {
					e.V[0] = 1
					e.Data = data[:len(data)-1]
					st.open = false
				}
			default:
				e.Kind = kSysExEscape
				e.Data = data
			}
		case status >= 0xf0:
			return nil, Reject, "system status in file"
		default:
			n := 2
			switch status & 0xf0 {
			case 0xa0, 0xc0, 0xd0: // poly pressure: see the known findings
				n = 1
			}
			if p+n > len(body) {
				// a data byte over 127 in what is there or simply truncated: both are rejected
				return nil, Reject, "truncated channel event"
			}
			d := body[p : p+n]
			for _, x := range d {
				if x > 0x7f {
					return nil, Reject, "data byte"
				}
			}
			p += n
			st.running = status
			e.Ch = status & 0x0f
			key := int(e.Ch)<<8 | int(d[0])
			switch status & 0xf0 {
			case 0x80:
				e.Kind = kNoteOff
				e.V[0], e.V[1] = int32(d[0]), int32(d[1])
				now := noteName(int(d[0]), st.flats, refBase)
				if name, ok := st.names[key]; ok {
					e.S = name
					delete(st.names, key)
				} else if name, ok := st.last[key]; ok && name != now {
					e.S = now
					e.AnyName = true
				} else {
					e.S = now
				}
			case 0x90:
				e.Kind = kNoteOn
				e.V[0], e.V[1] = int32(d[0]), int32(d[1])
				e.S = noteName(int(d[0]), st.flats, refBase)
				st.names[key] = e.S
				st.last[key] = e.S
			case 0xa0:
				e.Kind = kPolyphonicPressure
				e.V[0] = int32(d[0])
			case 0xb0:
				e.Kind = kController
				e.V[0], e.V[1] = int32(d[0]), int32(d[1])
				e.S = refController(d[0])
				if d[0] == 0 {
					st.bank[e.Ch] = st.bank[e.Ch]&0x7f | int32(d[1])<<7
				}
				if d[0] == 32 {
					st.bank[e.Ch] = st.bank[e.Ch]&0x3f80 | int32(d[1])
				}
			case 0xc0:
				e.Kind = kProgramChange
				e.V[0], e.V[1] = st.bank[e.Ch], int32(d[0])
			case 0xd0:
				e.Kind = kChannelPressure
				e.V[0] = int32(d[0])
			case 0xe0:
				e.Kind = kPitchBend
				e.V[0] = int32(d[0])<<7 | int32(d[1]) // see the known findings
			}
		}
		e.Raw = body[start:p]
		evs = append(evs, e)
	}
	return evs, Accept, ""
}

func readVLF(b []byte) ([]byte, int, Verdict) {
	n, k, v := readVLQ(b)
	if v != Accept {
		return nil, 0, v
	}
	if uint64(k)+uint64(n) > uint64(len(b)) {
		return nil, 0, Reject
	}
	return b[k : k+int(n)], k + int(n), Accept
}

func refMeta(e *Ev, typ byte, d []byte, st *refState) (Verdict, string) {
	want := func(n int) bool { return len(d) == n }
	switch typ {
	case 0x00:
		if !want(2) {
			return Reject, "sequence number length"
		}
		e.Kind, e.V[0] = kSequenceNumber, int32(d[0])<<8|int32(d[1])
	case 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09:
		e.Kind = kText + Kind(typ) - 1
		e.S = string(d)
	case 0x20:
		if !want(1) || d[0] > 15 {
			return Reject, "channel prefix"
		}
		e.Kind, e.V[0] = kMIDIChannelPrefix, int32(d[0])
	case 0x21:
		if !want(1) || d[0] > 127 {
			return Reject, "port"
		}
		e.Kind, e.V[0] = kMIDIPort, int32(d[0])
	case 0x2f:
		if !want(0) {
			return Unspecified, "end of track with data"
		}
		e.Kind = kEndOfTrack
	case 0x51:
		if !want(3) {
			return Reject, "tempo length"
		}
		e.Kind, e.V[0] = kTempo, int32(d[0])<<16|int32(d[1])<<8|int32(d[2])
	case 0x54:
		if !want(5) {
			return Reject, "SMPTE offset length"
		}
		rate := [4]int32{24, 25, 29, 30}[d[0]>>5&3]
		h, m, s, f, ff := int32(d[0]&0x1f), int32(d[1]), int32(d[2]), int32(d[3]), int32(d[4])
		// The project documents 0..24 hours and 0..100 fractional frames. Bit 7 of the hour is undefined
		// and so is frame 29 at 29 (29.97 drop frame) frames per second, where conventions differ.
		if h > 24 || m > 59 || s > 59 || f >= rate && !(rate == 29 && f == 29) || ff > 100 {
			return Reject, "SMPTE offset value"
		}
		if d[0] > 0x7f || rate == 29 && f == 29 {
			return Unspecified, "SMPTE offset value"
		}
		e.Kind = kSMPTEOffset
		e.V = [6]int32{h, m, s, rate, f, ff}
	case 0x58:
		if !want(4) {
			return Reject, "time signature length"
		}
		if d[1] > 7 {
			return Reject, "time signature denominator"
		}
		e.Kind = kTimeSignature
		e.V = [6]int32{int32(d[0]), 1 << d[1], int32(d[2]), int32(d[3])}
	case 0x59:
		if !want(2) {
			return Reject, "key signature length"
		}
		acc := int(int8(d[0]))
		if acc < -7 || acc > 7 || d[1] > 1 {
			return Reject, "key signature"
		}
		e.Kind = kKeySignature
		e.V[0], e.V[1] = int32(acc), int32(d[1])
		e.S = keyName(acc, int(d[1]))
		st.flats = acc < 0
	case 0x7f:
		if len(d) < 1 || d[0] == 0 && len(d) < 3 {
			return Reject, "sequencer specific without manufacturer"
		}
		e.Kind = kSequencerSpecific
		n := 1
		if d[0] == 0 {
			n = 3
		}
		e.V[0] = int32(n)
		e.S = refManufacturer(d[:n])
		e.Data = d
	default:
		return Reject, "unknown meta event"
	}
	return Accept, ""
}

// Parses a file.
func refFile(b []byte) (*File, Verdict, string) {
	be16 := func(p int) uint16 { return uint16(b[p])<<8 | uint16(b[p+1]) }
	if len(b) == 0 {
		return nil, Reject, "empty"
	}
	f := File{}
	type chunk struct {
		tag  string
		body []byte
	}
	chunks := []chunk{}
	for p := 0; p < len(b); {
		if p+8 > len(b) {
			return nil, Reject, "truncated chunk header"
		}
		n := uint64(b[p+4])<<24 | uint64(b[p+5])<<16 | uint64(b[p+6])<<8 | uint64(b[p+7])
		if uint64(p)+8+n > uint64(len(b)) {
			return nil, Reject, "truncated chunk"
		}
		chunks = append(chunks, chunk{string(b[p : p+4]), b[p+8 : p+8+int(n)]})
		p += 8 + int(n)
	}
	if chunks[0].tag != "MThd" {
		return nil, Reject, "no MThd"
	}
	if len(chunks[0].body) != 6 {
		return nil, Reject, "MThd length"
	}
	f.Format, f.Tracks, f.Division = be16(8), be16(10), be16(12)
	if f.Format > 2 {
		return nil, Reject, "format"
	}
	if f.Division >= 0x8000 {
		switch f.Division >> 8 {
		case 0xe8, 0xe7, 0xe3, 0xe2:
		default:
			return nil, Reject, "frame rate"
		}
	}
	un := ""
	for _, c := range chunks[1:] {
		switch c.tag {
		case "MTrk":
			evs, v, why := refTrack(c.body)
			if v == Reject {
				return nil, v, why
			}
			if v == Unspecified {
				un = why
			}
			f.Trk = append(f.Trk, evs)
		case "MThd":
			un = "second MThd"
		}
	}
	if len(f.Trk) != int(f.Tracks) {
		return nil, Reject, "track count"
	}
	if un != "" {
		return nil, Unspecified, un
	}
	return &f, Accept, ""
}

// ---- comparison

// What to compare: everything, or the content (without raw bytes, for files that were re-encoded).
type cmpMode uint8

const (
	cmpAll     cmpMode = iota
	cmpContent         // no raw bytes
	cmpNoNames         // no raw bytes and no note names
)

func diffEv(want, got *Ev, m cmpMode) string {
	f := func(what string, a, b any) string {
		return fmt.Sprintf("%s: expected %v, got %v\n  expected %v\n  got      %v", what, a, b, want, got)
	}
	switch {
	case want.Kind != got.Kind:
		return f("kind", want.Kind, got.Kind)
	case want.Tick != got.Tick:
		return f("tick", want.Tick, got.Tick)
	case want.Delta != got.Delta:
		return f("delta", want.Delta, got.Delta)
	case want.Status != got.Status:
		return f("status", want.Status, got.Status)
	case want.Ch != got.Ch:
		return f("channel", want.Ch, got.Ch)
	case want.V != got.V:
		return f("values", want.V, got.V)
	case !bytes.Equal(want.Data, got.Data):
		return f("data", clip(want.Data), clip(got.Data))
	case m == cmpAll && !bytes.Equal(want.Raw, got.Raw):
		return f("bytes", clip(want.Raw), clip(got.Raw))
	}
	if want.S != got.S {
		note := want.Kind == kNoteOn || want.Kind == kNoteOff
		switch {
		case note && m == cmpNoNames:
		case note && want.AnyName && sameNote(want.S, got.S):
		default:
			return f("name", want.S, got.S)
		}
	}
	return ""
}

// The two spellings of a note.
func sameNote(a, b string) bool {
	for i := 0; i < 12; i++ {
		for _, x := range []string{"-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} {
			s, f := sharpNames[i]+x, flatNames[i]+x
			if (a == s || a == f) && (b == s || b == f) {
				return true
			}
		}
	}
	return false
}

func diffFile(want, got *File, m cmpMode) error {
	if want.Format != got.Format || want.Tracks != got.Tracks || want.Division != got.Division {
		return fmt.Errorf("header: expected format %d, %d tracks, division %04X; got format %d, %d tracks, division %04X", want.Format, want.Tracks, want.Division, got.Format, got.Tracks, got.Division)
	}
	if len(want.Trk) != len(got.Trk) {
		return fmt.Errorf("expected %d tracks, got %d", len(want.Trk), len(got.Trk))
	}
	for i := range want.Trk {
		a, b := want.Trk[i], got.Trk[i]
		for j := 0; j < len(a) && j < len(b); j++ {
			if d := diffEv(&a[j], &b[j], m); d != "" {
				return fmt.Errorf("track %d event %d: %s", i, j, d)
			}
		}
		if len(a) != len(b) {
			return fmt.Errorf("track %d: expected %d events, got %d", i, len(a), len(b))
		}
	}
	return nil
}

// ---- builders

func vlq(v uint32) []byte {
	b := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		b = append([]byte{byte(v&0x7f) | 0x80}, b...)
	}
	return b
}

func hdr(format, tracks, division int) []byte {
	return []byte{'M', 'T', 'h', 'd', 0, 0, 0, 6, byte(format >> 8), byte(format), byte(tracks >> 8), byte(tracks), byte(division >> 8), byte(division)}
}

func chunkOf(tag string, body ...[]byte) []byte {
	b := bytes.Join(body, nil)
	n := len(b)
	return append([]byte{tag[0], tag[1], tag[2], tag[3], byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

func mtrk(body ...[]byte) []byte { return chunkOf("MTrk", body...) }

var eot = []byte{0x00, 0xff, 0x2f, 0x00}

func cat(b ...[]byte) []byte { return bytes.Join(b, nil) }

// A file with one track.
func file1(body ...[]byte) []byte { return cat(hdr(0, 1, 96), mtrk(body...)) }

func fileN(format int, division int, bodies ...[]byte) []byte {
	b := hdr(format, len(bodies), division)
	for _, x := range bodies {
		b = append(b, mtrk(x)...)
	}
	return b
}

func meta(delta uint32, typ byte, data []byte) []byte {
	return cat(vlq(delta), []byte{0xff, typ}, vlq(uint32(len(data))), data)
}

func sysx(delta uint32, status byte, data []byte) []byte {
	return cat(vlq(delta), []byte{status}, vlq(uint32(len(data))), data)
}

func ch(delta uint32, b ...byte) []byte { return cat(vlq(delta), b) }

func printable(s string) bool {
	return !strings.ContainsFunc(s, func(r rune) bool { return r < 0x20 || r == 0x7f || r == 0xfffd })
}
