package main

// Single events through the library interface: Event.UnmarshalBinary, MarshalBinary, JSON (P25).

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// A new event of each kind, for its own UnmarshalBinary.
func newEvents() []encoding.BinaryUnmarshaler {
	return []encoding.BinaryUnmarshaler{
		&metaevent.SequenceNumber{}, &metaevent.Text{}, &metaevent.Copyright{}, &metaevent.TrackName{}, &metaevent.InstrumentName{},
		&metaevent.Lyric{}, &metaevent.Marker{}, &metaevent.CuePoint{}, &metaevent.ProgramName{}, &metaevent.DeviceName{},
		&metaevent.MIDIChannelPrefix{}, &metaevent.MIDIPort{}, &metaevent.EndOfTrack{}, &metaevent.Tempo{}, &metaevent.SMPTEOffset{},
		&metaevent.TimeSignature{}, &metaevent.KeySignature{}, &metaevent.SequencerSpecificEvent{},
		&midievent.NoteOff{}, &midievent.NoteOn{}, &midievent.PolyphonicPressure{}, &midievent.Controller{}, &midievent.ProgramChange{},
		&midievent.ChannelPressure{}, &midievent.PitchBend{},
		&sysex.SysExMessage{}, &sysex.SysExContinuationMessage{}, &sysex.SysExEscapeMessage{},
	}
}

// The payload of an F7 packet: whether it is a continuation or an escape depends on the events before it.
func f7(e *Ev) Ev {
	x := *e
	if x.Kind == kSysExContinuation {
		if x.V[0] == 1 { // the terminating F7 is not part of the data
			x.Data = cat(x.Data, []byte{0xf7})
		}
		x.Kind, x.V[0] = kSysExEscape, 0
	}
	return x
}

func sameEvent(want, got Ev, m cmpMode) error {
	want.Tick, got.Tick = 0, 0
	if want.Status == 0xf7 && got.Status == 0xf7 {
		want, got = f7(&want), f7(&got)
	}
	if s := diffEv(&want, &got, m); s != "" {
		return fmt.Errorf("expected %v, got %v: %s", want, got, s)
	}
	return nil
}

func eventOracle(in []byte, arg string) (string, error) {
	evs, v, why := refTrack(in)
	var e events.Event
	err := e.UnmarshalBinary(append([]byte{}, in...))
	switch {
	case v == Unspecified || v == Accept && len(evs) != 1:
		return ifelse(err == nil, "unspecified/accepted", "unspecified/rejected"), nil
	case v == Reject:
		if err == nil {
			for n := range in {
				if evs, v, _ := refTrack(in[:n]); v != Reject && len(evs) == 1 {
					return "bytes after the event", nil
				}
			}
			return "", fmt.Errorf("accepted an event that has to be rejected (%s): % X", why, clip(in))
		}
		if arg == "types" {
			for n := range in {
				if evs, v, _ := refTrack(in[:n]); v != Reject && len(evs) == 1 {
					return "bytes after the event", nil
				}
			}
			for _, p := range newEvents() {
				if err := p.UnmarshalBinary(append([]byte{}, in...)); err == nil {
					return "", fmt.Errorf("%T accepted an event that has to be rejected (%s): % X", p, why, clip(in))
				}
			}
			return "rejected by every kind", nil
		}
		return "rejected", nil
	case err != nil:
		return "", fmt.Errorf("rejected a well-formed event % X: %v", clip(in), err)
	}
	want := evs[0]
	got, err := canonEvent(&e)
	if err != nil {
		return "", err
	}
	if err := sameEvent(want, got, cmpAll); err != nil {
		return "", fmt.Errorf("% X: %v", clip(in), err)
	}
	// the event's own method, and those of the other kinds
	n := 0
	for _, p := range newEvents() {
		f7s := want.Status == 0xf7
		err := p.UnmarshalBinary(append([]byte{}, in...))
		i := reflect.ValueOf(p).Elem().Interface().(events.IEvent)
		if err != nil {
			continue
		}
		x, err := canonI(i)
		if err != nil {
			return "", err
		}
		n++
		if err := sameEvent(want, x, cmpAll); err != nil && !f7s {
			return "", fmt.Errorf("% X decoded by %T: %v", clip(in), p, err)
		}
	}
	if n == 0 {
		return "", fmt.Errorf("% X (%v) is rejected by every kind of event", clip(in), want.Kind)
	}
	// back to bytes
	m, ok := e.Event.(encoding.BinaryMarshaler)
	if !ok {
		return "", fmt.Errorf("%v cannot be encoded", want)
	}
	b, err := m.MarshalBinary()
	if err != nil {
		return "", fmt.Errorf("%v is not encoded: %v", want, err)
	}
	again := cat(vlq(want.Delta), b)
	evs2, v2, why2 := refTrack(again)
	if v2 != Accept || len(evs2) != 1 {
		return "", fmt.Errorf("%v is encoded as % X (%s)", want, clip(b), why2)
	}
	if err := sameEvent(want, evs2[0], cmpContent); err != nil {
		return "", fmt.Errorf("encoded as % X: %v", clip(b), err)
	}
	if want.Status == 0xf0 && want.V[0] == 0 || want.Status == 0xf7 {
		return "packet", nil
	}
	if isText(want.Kind) && !bytes.Equal(bytes.ToValidUTF8([]byte(want.S), []byte("?")), []byte(want.S)) {
		return "text, not UTF-8", nil
	}
	j, err := json.Marshal(e)
	if err != nil {
		return "", fmt.Errorf("%v: no JSON: %v", want, err)
	}
	var e2 events.Event
	if err := json.Unmarshal(j, &e2); err != nil {
		return "", fmt.Errorf("%v: JSON %s is rejected: %v", want, j, err)
	}
	x, err := canonEvent(&e2)
	if err != nil {
		return "", err
	}
	if err := sameEvent(want, x, cmpContent); err != nil {
		return "", fmt.Errorf("JSON %s: %v", j, err)
	}
	if arg != "types" {
		return "round trip", nil
	}
	// the JSON and the listing line of the event with the methods of each kind
	own, err := json.Marshal(e.Event)
	if err != nil {
		return "", fmt.Errorf("%v: no JSON: %v", want, err)
	}
	n = 0
	for _, p := range newEvents() {
		q, ok := p.(json.Unmarshaler)
		if !ok {
			continue
		}
		if err := q.UnmarshalJSON(append([]byte{}, own...)); err != nil {
			continue
		}
		n++
		x, err := canonI(reflect.ValueOf(p).Elem().Interface().(events.IEvent))
		if err != nil {
			return "", err
		}
		if err := sameEvent(want, x, cmpContent); err != nil {
			return "", fmt.Errorf("JSON %s accepted by %T: %v", own, p, err)
		}
	}
	if n != 1 {
		return "", fmt.Errorf("JSON %s is accepted by %d kinds of event", own, n)
	}
	return "round trip of " + want.Kind.String(), nil
}

func init() {
	oracle("event", eventOracle)
	check(&Check{ID: "P25", Level: "exploration",
		Rule:  "decode every event of the space on its own with Event.UnmarshalBinary and with the UnmarshalBinary of every kind of event, compare with the reference parser, encode it again with MarshalBinary and through JSON, and compare with the first",
		Assum: []string{"bytes after the event, and whether an F7 packet on its own is a continuation or an escape, are unspecified"},
		Run:   runP25})
}

func runP25(r *R) {
	for _, d := range append(domains(), tempoSome) {
		r.Par("domain "+d.Name, d.N, func(w *W, i int) bool { return w.Case("event", cat([]byte{0}, d.At(i)), "") })
	}
	a := alphabet()
	ds := vlqEdges()
	r.Par("events x deltas", len(a)*len(ds), func(w *W, i int) bool {
		b := a[i%len(a)].B // delta, event
		n := 0
		for b[n] >= 0x80 {
			n++
		}
		return w.Case("event", cat(vlq(ds[i/len(a)]), b[n+1:]), "")
	})
	e := extremes()
	r.Par("events at their limits x deltas", len(e)*len(ds), func(w *W, i int) bool {
		return w.Case("event", cat(vlq(ds[i/len(e)]), e[i%len(e)]), "")
	})
	r.Par("every prefix of every event", len(a), func(w *W, i int) bool {
		for n := range a[i].B {
			if !w.Case("event", a[i].B[:n], "types") {
				return false
			}
		}
		return true
	})
	bodies3(r, "event")
	r.Par("events by the methods of every kind", len(a), func(w *W, i int) bool { return w.Case("event", a[i].B, "types") })
	for _, d := range append(domains(), tempoSome) {
		if d.N <= 3000 || r.Thorough() {
			r.Par("by the methods of every kind: "+d.Name, d.N, func(w *W, i int) bool {
				return len(d.At(i)) > 5000 || w.Case("event", cat([]byte{5}, d.At(i)), "types")
			})
		}
	}
	types := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x2f, 0x51, 0x54, 0x58, 0x59, 0x7f, 0x0a, 0x1f, 0x50, 0x7e}
	vals := []byte{0, 1, 2, 5, 7, 8, 12, 15, 16, 23, 24, 29, 30, 59, 60, 63, 64, 99, 100, 127, 128, 192, 239, 247, 248, 249, 254, 255}
	r.Par("meta types x lengths x data", len(types)*8*len(vals)*len(vals), func(w *W, i int) bool {
		v1, v2 := vals[i%len(vals)], vals[i/len(vals)%len(vals)]
		i /= len(vals) * len(vals)
		b := make([]byte, i%8)
		for k := range b {
			b[k] = ifelse(k%2 == 0, v1, v2)
		}
		return w.Case("event", meta(0, types[i/8], b), "types")
	})
	r.Par("meta types x one byte changed", len(a)*256, func(w *W, i int) bool {
		b := append([]byte{}, a[i/256].B...)
		for k := range b {
			c := b[k]
			b[k] = byte(i)
			if !w.Case("event", b, "types") {
				return false
			}
			b[k] = c
		}
		return true
	})
	r.Par("channel events with every data byte, by every kind", 7*256*3, func(w *W, i int) bool {
		st, v := byte(0x80+i%7*16+i/7%16), byte(i/7%256)
		d := [][]byte{{v, 0}, {0, v}, {v, v}}[i/7/256]
		return w.Case("event", cat([]byte{0, st}, d[:chanLen(st)]), "types") && w.Case("event", cat([]byte{0, st}, d), "types") && w.Case("event", []byte{0, st}, "types")
	})
	r.Sample(fmt.Sprintf("% X", a[3].B))
}
