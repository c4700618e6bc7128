package main

// The adapter: decoded files of the code under test, through the exported API, as reference values.

import (
	"bytes"
	"fmt"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
)

func decode(b []byte) (*midi.SMF, error) {
	return midifile.NewDecoder().Decode(bytes.NewReader(b))
}

func encode(smf *midi.SMF) ([]byte, error) {
	var w bytes.Buffer
	if err := midifile.NewEncoder(&w).Encode(*smf); err != nil {
		return nil, err
	}
	return w.Bytes(), nil
}

func manuf(m lib.Manufacturer) string { return m.Region + "|" + m.Name }

// Converts a decoded event. The error reports an inconsistency between the event's own parts.
func canonEvent(e *events.Event) (Ev, error) {
	v, err := canonI(e.Event)
	if err != nil {
		return v, err
	}
	if e.Tick() != v.Tick || e.Delta() != v.Delta || !bytes.Equal(e.Bytes(), v.Raw) {
		return v, fmt.Errorf("inconsistent event %v", v)
	}
	return v, nil
}

func canonI(i events.IEvent) (Ev, error) {
	x := Ev{Tick: i.Tick(), Delta: i.Delta(), Raw: i.Bytes()}
	note := func(k Kind, n midievent.Note, vel byte) {
		x.Kind = k
		x.V[0], x.V[1] = int32(n.Value), int32(vel)
		x.S = n.Name
	}
	text := func(k Kind, st lib.Status, s string) { x.Kind, x.Status, x.S = k, byte(st), s }
	num := func(k Kind, st lib.Status, v ...int32) {
		x.Kind, x.Status = k, byte(st)
		copy(x.V[:], v)
	}
	ty := -1
	switch e := i.(type) {
	case metaevent.SequenceNumber:
		num(kSequenceNumber, e.Status, int32(e.SequenceNumber))
		ty = int(e.Type)
	case metaevent.Text:
		text(kText, e.Status, e.Text)
		ty = int(e.Type)
	case metaevent.Copyright:
		text(kCopyright, e.Status, e.Copyright)
		ty = int(e.Type)
	case metaevent.TrackName:
		text(kTrackName, e.Status, e.Name)
		ty = int(e.Type)
	case metaevent.InstrumentName:
		text(kInstrumentName, e.Status, e.Name)
		ty = int(e.Type)
	case metaevent.Lyric:
		text(kLyric, e.Status, e.Lyric)
		ty = int(e.Type)
	case metaevent.Marker:
		text(kMarker, e.Status, e.Marker)
		ty = int(e.Type)
	case metaevent.CuePoint:
		text(kCuePoint, e.Status, e.CuePoint)
		ty = int(e.Type)
	case metaevent.ProgramName:
		text(kProgramName, e.Status, e.Name)
		ty = int(e.Type)
	case metaevent.DeviceName:
		text(kDeviceName, e.Status, e.Name)
		ty = int(e.Type)
	case metaevent.MIDIChannelPrefix:
		num(kMIDIChannelPrefix, e.Status, int32(e.Channel))
		ty = int(e.Type)
	case metaevent.MIDIPort:
		num(kMIDIPort, e.Status, int32(e.Port))
		ty = int(e.Type)
	case metaevent.EndOfTrack:
		num(kEndOfTrack, e.Status)
		ty = int(e.Type)
	case metaevent.Tempo:
		num(kTempo, e.Status, int32(e.Tempo))
		ty = int(e.Type)
	case metaevent.SMPTEOffset:
		num(kSMPTEOffset, e.Status, int32(e.Hour), int32(e.Minute), int32(e.Second), int32(e.FrameRate), int32(e.Frames), int32(e.FractionalFrames))
		ty = int(e.Type)
	case metaevent.TimeSignature:
		num(kTimeSignature, e.Status, int32(e.Numerator), int32(e.Denominator), int32(e.TicksPerClick), int32(e.ThirtySecondsPerQuarter))
		ty = int(e.Type)
	case metaevent.KeySignature:
		num(kKeySignature, e.Status, int32(e.Accidentals), int32(e.KeyType))
		x.S = e.Key
		ty = int(e.Type)
	case metaevent.SequencerSpecificEvent:
		num(kSequencerSpecific, e.Status, int32(len(e.Manufacturer.ID)))
		x.S = manuf(e.Manufacturer)
		x.Data = append(append([]byte{}, e.Manufacturer.ID...), e.Data...)
		ty = int(e.Type)
	case midievent.NoteOff:
		note(kNoteOff, e.Note, e.Velocity)
		x.Status, x.Ch = byte(e.Status), uint8(e.Channel)
	case midievent.NoteOn:
		note(kNoteOn, e.Note, e.Velocity)
		x.Status, x.Ch = byte(e.Status), uint8(e.Channel)
	case midievent.PolyphonicPressure:
		num(kPolyphonicPressure, e.Status, int32(e.Pressure))
		x.Ch = uint8(e.Channel)
	case midievent.Controller:
		num(kController, e.Status, int32(e.Controller.ID), int32(e.Value))
		x.Ch, x.S = uint8(e.Channel), e.Controller.Name
	case midievent.ProgramChange:
		num(kProgramChange, e.Status, int32(e.Bank), int32(e.Program))
		x.Ch = uint8(e.Channel)
	case midievent.ChannelPressure:
		num(kChannelPressure, e.Status, int32(e.Pressure))
		x.Ch = uint8(e.Channel)
	case midievent.PitchBend:
		num(kPitchBend, e.Status, int32(e.Bend))
		x.Ch = uint8(e.Channel)
	case sysex.SysExMessage:
		num(kSysExMessage, e.Status)
		x.S = manuf(e.Manufacturer)
		x.Data = append(append([]byte{}, e.Manufacturer.ID...), e.Data...)
		if e.Single {
			x.V[0] = 1
		}
	case sysex.SysExContinuationMessage:
		num(kSysExContinuation, e.Status)
		x.Data = e.Data
		if e.End {
			x.V[0] = 1
		}
	case sysex.SysExEscapeMessage:
		num(kSysExEscape, e.Status)
		x.Data = e.Data
	default:
		return x, fmt.Errorf("unknown event type %T", i)
	}
	if t := i.Tag(); t != kindTag[x.Kind] {
		return x, fmt.Errorf("event %v has tag %q", x, t)
	}
	if ty >= 0 && ty != int(metaType[x.Kind]) {
		return x, fmt.Errorf("event %v has meta type %02X", x, ty)
	}
	return x, nil
}

var metaType = map[Kind]byte{kSequenceNumber: 0, kText: 1, kCopyright: 2, kTrackName: 3, kInstrumentName: 4, kLyric: 5, kMarker: 6, kCuePoint: 7,
	kProgramName: 8, kDeviceName: 9, kMIDIChannelPrefix: 0x20, kMIDIPort: 0x21, kEndOfTrack: 0x2f, kTempo: 0x51, kSMPTEOffset: 0x54,
	kTimeSignature: 0x58, kKeySignature: 0x59, kSequencerSpecific: 0x7f}

// Converts a decoded file; checks that the header fields and track numbers are consistent.
func canon(smf *midi.SMF) (*File, error) {
	h := smf.MThd
	if h == nil {
		return nil, fmt.Errorf("decoded file without header")
	}
	f := File{Format: h.Format, Tracks: h.Tracks, Division: h.Division}
	if h.Tag != "MThd" || h.Length != 6 {
		return nil, fmt.Errorf("header tag %q length %d", h.Tag, h.Length)
	}
	type tc struct {
		ppqn  uint16
		smpte bool
		fps   uint8
		sub   uint16
		drop  bool
	}
	want := tc{ppqn: h.Division}
	if h.Division >= 0x8000 {
		want = tc{0, true, map[uint16]uint8{0xe8: 24, 0xe7: 25, 0xe3: 29, 0xe2: 30}[h.Division>>8], h.Division & 0xff, h.Division>>8 == 0xe3}
	}
	if got := (tc{h.PPQN, h.SMPTETimeCode, h.FPS, h.SubFrames, h.DropFrame}); got != want {
		return nil, fmt.Errorf("header division %04X: expected %+v, got %+v", h.Division, want, got)
	}
	for i, t := range smf.Tracks {
		if int(t.TrackNumber) != i || t.Tag != "MTrk" {
			return nil, fmt.Errorf("track %d is numbered %d, tag %q", i, t.TrackNumber, t.Tag)
		}
		evs := make([]Ev, 0, len(t.Events))
		for _, e := range t.Events {
			x, err := canonEvent(e)
			if err != nil {
				return nil, fmt.Errorf("track %d event %d: %v", i, len(evs), err)
			}
			evs = append(evs, x)
		}
		f.Trk = append(f.Trk, evs)
	}
	return &f, nil
}

// The decode oracle: the decoder against the reference.
func decodeCheck(b []byte) (string, *midi.SMF, *File, error) {
	want, v, why := refFile(b)
	smf, err := decode(b)
	switch {
	case v == Unspecified:
		if err == nil {
			return "unspecified/accepted", nil, nil, nil
		}
		return "unspecified/rejected", nil, nil, nil
	case v == Reject:
		if err == nil {
			return "", nil, nil, fmt.Errorf("accepted a file that has to be rejected (%s)", why)
		}
		return "rejected: " + why, nil, nil, nil
	}
	if err != nil {
		return "", nil, nil, fmt.Errorf("rejected a well-formed file: %v", err)
	}
	got, err := canon(smf)
	if err != nil {
		return "", nil, nil, err
	}
	if err := diffFile(want, got, cmpAll); err != nil {
		return "", nil, nil, err
	}
	return "accepted", smf, want, nil
}
