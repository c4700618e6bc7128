package main

// Probes of the known findings (see KNOWN-FINDINGS): defects that are recorded rather than repaired.

import (
	"fmt"
	"strings"
)

func firstEvent(b []byte) (Ev, error) {
	smf, err := decode(b)
	if err != nil {
		return Ev{}, err
	}
	f, err := canon(smf)
	if err != nil {
		return Ev{}, err
	}
	return f.Trk[0][0], nil
}

// The content of a one-track file after disassembling and assembling it.
func throughText(body []byte) (*File, *File, error) {
	smf, want, err := content(file1(body, eot))
	if err != nil || smf == nil {
		return nil, nil, fmt.Errorf("not decoded: %v", err)
	}
	s, err := listFresh(smf, "document")
	if err != nil {
		return nil, nil, err
	}
	b, err := assembleText(s)
	if err != nil {
		return want, nil, nil
	}
	got, err := wellformed(b)
	return want, got, err
}

func textProbe(body []byte) func() error {
	return func() error {
		want, got, err := throughText(body)
		if err != nil {
			return err
		}
		if got == nil {
			return nil // reported
		}
		return diffFile(want, got, cmpContent)
	}
}

func init() {
	known("P01",
		Known{"F-BEND-ORDER", "the pitch bend bytes E0 00 40 (centre, 8192, in a Standard MIDI File: least significant byte first) are decoded as 64: the byte order is reversed, as pinned by the tests", func() error {
			e, err := firstEvent(file1(ch(0, 0xe0, 0x00, 0x40), eot))
			if err != nil {
				return err
			}
			if e.V[0] != 8192 {
				return fmt.Errorf("bend %d", e.V[0])
			}
			return nil
		}},
		Known{"F-POLY-PRESSURE", "polyphonic pressure (A0 3C 40: key and pressure in a Standard MIDI File) is decoded with one data byte, as pinned by the tests", func() error {
			e, err := firstEvent(file1(ch(0, 0xa0, 0x3c, 0x40), eot))
			if err != nil {
				return err
			}
			if len(e.Raw) != 4 {
				return fmt.Errorf("%d bytes", len(e.Raw))
			}
			return nil
		}})
	known("P05",
		Known{"F-TEXT-NEWLINE", "a text field that contains a line break and text in the form of an event is listed on two lines and assembled as two events", textProbe(meta(0, 1, []byte("a\n   00 90 30 40  tick:0  delta:0  90 NoteOn channel:0 note:C3, velocity:1")))},
		Known{"F-TEXT-BLANKS", "blanks at the start or end of a text field (meta event FF 01 02 20 61) are lost in the listing", textProbe(meta(0, 1, []byte(" a")))},
		Known{"F-TEXT-OPEN-SYSEX", "an unterminated SysEx message (F0 03 43 12 00, no F7 packet) is assembled with a terminating F7", textProbe(sysx(0, 0xf0, []byte{0x43, 0x12, 0x00}))})
	known("P15",
		Known{"F-LIST-NEWLINE", "an event with a line break in a text field is listed on more than one line", func() error {
			smf, err := decode(file1(meta(0, 1, []byte("a\nb")), eot))
			if err != nil {
				return err
			}
			s, err := listFresh(smf, "document")
			if err != nil {
				return err
			}
			if n := len(nonblank(s)); n != 4 {
				return fmt.Errorf("%d lines: %s", n, strings.Join(nonblank(s), " / "))
			}
			return nil
		}})
}
