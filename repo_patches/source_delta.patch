From e3ba939721a835baeeeee8609b3676a5b1a77f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:01 +0000
Subject: [PATCH 01/55] fix: return the parse error for an invalid or unknown
 event instead of panicking

---
 midi/MTrk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..62d27bb 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -136,6 +136,9 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
 		return events.NewEvent(e), err
 	}
@@ -184,6 +187,9 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-- 
2.43.0


From b92a93ef804b70d1b3293fe9af2c10520e4ab6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:02 +0000
Subject: [PATCH 02/55] fix: report a track that ends part way through an event
 instead of dropping the event

---
 midi/MTrk.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 62d27bb..144923e 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -108,6 +108,19 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		buffer: &bytes.Buffer{},
 	}
 
+	if _, err := rr.peek(); err != nil {
+		return nil, err // no more events
+	}
+
+	event, err := parseEvent(rr, tick, ctx)
+	if err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	return event, err
+}
+
+func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, error) {
 	delta, err := events.VLQ(rr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 078ad8daf39cb3f4fae6c07c2efa85e093e5dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 03/55] fix: reject MIDI channel events with a status byte in
 place of a data byte

---
 midi/MTrk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 144923e..3da0aeb 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -194,8 +194,10 @@ func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, er
 	}
 
 	for i := 0; i < length[status&0xf0]; i++ {
-		if _, err := rr.ReadByte(); err != nil {
+		if b, err := rr.ReadByte(); err != nil {
 			return nil, err
+		} else if b > 0x7f {
+			return nil, fmt.Errorf("Invalid MIDI event data byte (%02X)", b)
 		}
 	}
 
-- 
2.43.0


From aa0653cbf215cb9c8600f432a10ae6c0a80d5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:18 +0000
Subject: [PATCH 04/55] fix: accumulate the absolute tick as a 64 bit value

---
 midi/MTrk.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 3da0aeb..7641e56 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -45,14 +45,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
 	for err == nil {
 		e, err = parse(r, tick, chunk.Context)
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -102,7 +102,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -120,7 +120,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	return event, err
 }
 
-func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parseEvent(rr reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	delta, err := events.VLQ(rr)
 	if err != nil {
 		return nil, err
@@ -148,7 +148,7 @@ func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, er
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...)
 		if err != nil {
 			return nil, err
 		}
@@ -167,7 +167,7 @@ func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, er
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -201,7 +201,7 @@ func parseEvent(rr reader, tick uint32, ctx *context.Context) (*events.Event, er
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3d0a60105ee6b38bb28f285292021e493741dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:19 +0000
Subject: [PATCH 05/55] fix: keep all 7 bits of the bank select MSB and LSB

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 7641e56..17016c3 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -67,13 +67,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From 4ded3d8dce2d46a37b11f1d9e5efda69197a4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 06/55] fix: do not index past the end of short SysEx and
 sequencer specific event data

---
 midi/events/meta/sequencer_specific.go | 6 +++++-
 midi/events/sysex/message.go           | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..3b6eaa1 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent data (%d bytes): missing manufacturer ID", len(data))
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -68,7 +72,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..9dc8b87 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From 7fd406e4d82e5969b8385f5a779f008ce5f1a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 07/55] fix: correct the ID of the RealTime Extensions
 manufacturer (7F)

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 5fded20fab69ca264750e08ff12243a3f171cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:43 +0000
Subject: [PATCH 08/55] fix: encode the pitch bend as two 7 bit data bytes

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From bc453cee35bd2c9f0f72e4adc9a2e8b774540940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:08 +0000
Subject: [PATCH 09/55] fix: set the continuation bit in the first byte of a 5
 byte VLQ

---
 midi/lib/delta.go | 2 +-
 midi/lib/types.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..ef8ffb6 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -52,7 +52,7 @@ func (d Delta) MarshalBinary() ([]byte, error) {
 	}
 
 	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
+	buffer[0] = 0x80 | byte(b&0x7f)
 
 	return buffer, nil
 }
diff --git a/midi/lib/types.go b/midi/lib/types.go
index 1f8b8ba..7e055cf 100644
--- a/midi/lib/types.go
+++ b/midi/lib/types.go
@@ -23,7 +23,7 @@ func vlq2bin(v uint32) []byte {
 	}
 
 	buffer[1] |= 0x80
-	buffer[0] = byte(v & 0x7f)
+	buffer[0] = 0x80 | byte(v&0x7f)
 
 	return buffer
 }
-- 
2.43.0


From df80f2c639f7ea4431b3728648c4cf3443f98f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:10 +0000
Subject: [PATCH 10/55] fix: return an error when event data is shorter than
 its declared length

---
 midi/events/meta/metaevent.go       | 2 ++
 midi/events/meta/sequence_number.go | 2 ++
 midi/events/midi/midievent.go       | 2 ++
 midi/events/sysex/sysex.go          | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..41647f9 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v): got %v bytes", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..8c3691e 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) < 2 {
+		return fmt.Errorf("Invalid SequenceNumber data")
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..337471a 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v): got %v bytes", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..731f4d2 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%v): got %v bytes", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From 724ad5de4b4d1dc798039f31818613a47592d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:28 +0000
Subject: [PATCH 11/55] fix: encode the length of text and sequencer specific
 meta events as a VLQ

---
 midi/events/meta/copyright.go          |  7 +------
 midi/events/meta/cue_point.go          |  7 +------
 midi/events/meta/device_name.go        |  7 +------
 midi/events/meta/instrument_name.go    |  7 +------
 midi/events/meta/lyric.go              |  7 +------
 midi/events/meta/marker.go             |  7 +------
 midi/events/meta/metaevent.go          |  8 ++++++++
 midi/events/meta/program_name.go       |  7 +------
 midi/events/meta/sequencer_specific.go | 12 +++---------
 midi/events/meta/text.go               |  7 +------
 10 files changed, 19 insertions(+), 57 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..a7fbc66 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,7 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	return marshal(e.Status, e.Type, []byte(e.Copyright))
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..9287f9f 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,7 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	return marshal(e.Status, e.Type, []byte(e.CuePoint))
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..3960017 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,7 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	return marshal(d.Status, d.Type, []byte(d.Name))
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..453b95d 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,7 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	return marshal(e.Status, e.Type, []byte(e.Name))
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..07a7a00 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,7 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	return marshal(l.Status, l.Type, []byte(l.Lyric))
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..33197d4 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,7 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	return marshal(m.Status, m.Type, []byte(m.Marker))
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 41647f9..aab4f3b 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -155,6 +155,14 @@ func unmarshal[
 	}
 }
 
+func marshal(status lib.Status, eventType lib.MetaEventType, data []byte) ([]byte, error) {
+	if v, err := lib.VLF(data).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{byte(status), byte(eventType)}, v...), nil
+	}
+}
+
 func equal(s string, tag lib.Tag) bool {
 	return s == fmt.Sprintf("%v", tag)
 }
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..09b3ac2 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,7 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	return marshal(e.Status, e.Type, []byte(e.Name))
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 3b6eaa1..aebd413 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -48,17 +48,11 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
+	data := append([]byte{}, e.Manufacturer.ID...)
+	data = append(data, e.Data...)
 
-	b = append(b, e.Manufacturer.ID...)
-	b = append(b, e.Data...)
-
-	return b, nil
+	return marshal(e.Status, e.Type, data)
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..41d97d0 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,7 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	return marshal(e.Status, e.Type, []byte(e.Text))
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From 8975a87f82908d9cf9fa6c89f087860444f01d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:53 +0000
Subject: [PATCH 12/55] fix: keep the terminating F7 of a SysEx continuation
 message

---
 midi/events/sysex/continuation_message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..3a5debe 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -52,6 +52,9 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		terminator := data[len(d)-1]
 		if terminator == 0xf7 {
 			d = data[:len(d)-1]
+			*e = MakeSysExContinuationEndMessage(tick, delta, d, bytes...)
+
+			return nil
 		}
 	}
 
@@ -97,6 +100,9 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 			if terminator == 0xf7 {
 				d = data[:len(d)-1]
 				// ctx.Casio = false
+				*e = MakeSysExContinuationEndMessage(0, uint32(delta), d, bytes...)
+
+				return nil
 			}
 		}
 
-- 
2.43.0


From 99e57a8ec35a72db87b2da0638d4bd2b0d6ddf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:53 +0000
Subject: [PATCH 13/55] fix: terminate an assembled SysEx message at its last
 packet, not at the first unrelated event

---
 ops/assemble/assemble.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..3a2df79 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"github.com/transcriptaze/midiasm/midi"
+	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
@@ -12,9 +13,9 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	for ix := range mtrk.Events[1:] {
+	for ix := range mtrk.Events {
 		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+		event := next(mtrk.Events[ix+1:])
 
 		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
 			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
@@ -30,9 +31,9 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 		}
 	}
 
-	for ix := range mtrk.Events[1:] {
+	for ix := range mtrk.Events {
 		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+		event := next(mtrk.Events[ix+1:])
 
 		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
 			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
@@ -50,3 +51,21 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 
 	return mtrk, nil
 }
+
+// Returns the next SysEx event in the list (the packets of a SysEx message may be interleaved with other events).
+func next(list []*events.Event) *events.Event {
+	for _, e := range list {
+		switch e.Event.(type) {
+		case
+			sysex.SysExMessage,
+			sysex.SysExContinuationMessage,
+			sysex.SysExEscapeMessage,
+			*sysex.SysExMessage,
+			*sysex.SysExContinuationMessage,
+			*sysex.SysExEscapeMessage:
+			return e
+		}
+	}
+
+	return &events.Event{}
+}
-- 
2.43.0


From 0c2c2a436f5fe2d8cd0c00d12d4f0824a67df222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 14/55] fix: reject a time signature denominator that is not a
 power of 2 up to 128

---
 midi/events/meta/time_signature.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..68840ae 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -46,6 +39,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 		return fmt.Errorf("Invalid TimeSignature length (%d): expected '4'", len(data))
 	}
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d)", data[1])
+	}
+
 	numerator := data[0]
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
@@ -67,11 +64,15 @@ func (t TimeSignature) String() string {
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
 	d := 0
 	denominator := uint8(1)
-	for denominator < t.Denominator {
+	for denominator < t.Denominator && d < 7 {
 		denominator *= 2
 		d += 1
 	}
 
+	if denominator != t.Denominator {
+		return nil, fmt.Errorf("Invalid TimeSignature denominator (%v)", t.Denominator)
+	}
+
 	encoded = make([]byte, 7)
 
 	encoded[0] = byte(t.Status)
@@ -98,6 +99,8 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return err
 	} else if len(data) < 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
+	} else if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d)", data[1])
 	} else {
 		numerator := data[0]
 		ticksPerClick := data[2]
@@ -130,6 +133,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
 		return err
+	} else if !isPowerOf2(uint8(denominator)) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", denominator)
 	} else {
 		*e = MakeTimeSignature(0, delta, uint8(numerator), uint8(denominator), uint8(ticks), uint8(beats), []byte{}...)
 	}
@@ -182,9 +187,15 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if !isPowerOf2(t.Denominator) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
 
 	return nil
 }
+
+func isPowerOf2(v uint8) bool {
+	return v != 0 && v&(v-1) == 0
+}
-- 
2.43.0


From 641b7c8b57f08153e1a4ac2116d0bac1bea1dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:33 +0000
Subject: [PATCH 15/55] fix: parse any number of 32nd notes per quarter in a
 text TimeSignature

---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 68840ae..dc0e3cc 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -118,7 +118,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From f2d4094212e898c24717a007edb277cb465bee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 16/55] fix: parse the notes of the octaves below 0 in text
 NoteOn and NoteOff events

---
 midi/events/midi/note_off.go | 2 +-
 midi/events/midi/note_on.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..aed03c5 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..a820bd5 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
-- 
2.43.0


From fa1da164a716c5bc441a74a83d6905f6bde53fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:55 +0000
Subject: [PATCH 17/55] fix: parse note names using the middle C convention and
 reject notes outside 0 to 127

---
 midi/events/midi/note_on.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index a820bd5..ce495ca 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -233,11 +233,23 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
+	} else if value := 12*octave0(int(octave)) + note.Ord; value < 0 || value > 127 {
+		return Note{}, fmt.Errorf("invalid note (%v)", s)
 	} else {
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
 	}
 }
+
+// Converts the octave in a note name to the octave index of the note value, i.e. the inverse
+// of the conversion in FormatNote.
+func octave0(octave int) int {
+	if context.MiddleC == lib.C4 {
+		return octave + 2
+	}
+
+	return octave + 1
+}
-- 
2.43.0


From 05d197754898b5c8c7c88853e6d1f84826bc7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:17 +0000
Subject: [PATCH 18/55] fix: reject MIDI events with out of range values when
 assembling from JSON

---
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/controller.go          | 4 ++++
 midi/events/midi/note_off.go            | 4 ++++
 midi/events/midi/note_on.go             | 4 ++++
 midi/events/midi/pitch_bend.go          | 2 ++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 midi/events/midi/program_change.go      | 2 ++
 7 files changed, 20 insertions(+)

diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..49ed2f9 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -139,6 +139,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid Controller ID (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index aed03c5..bfd5e04 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -220,6 +220,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index ce495ca..77f341f 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..70d1204 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -136,6 +136,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 16383 {
+		return fmt.Errorf("invalid PitchBend value (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..9c553c3 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -132,6 +132,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..3e985c1 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -134,6 +134,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From 1a1479e8774504d01784bed2772ed4f4d7f5afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:19 +0000
Subject: [PATCH 19/55] fix: reject Controller, ProgramChange and PitchBend
 events with out of range values in text

---
 midi/events/midi/controller.go     | 4 ++++
 midi/events/midi/pitch_bend.go     | 2 ++
 midi/events/midi/program_change.go | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 49ed2f9..328d4ed 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -99,6 +99,10 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid Controller ID (%v)", controller)
+	} else if value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 70d1204..83d8254 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -100,6 +100,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 16383 {
+		return fmt.Errorf("invalid PitchBend value (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 3e985c1..1e3666f 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -94,6 +94,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
-- 
2.43.0


From 0cec3516d262b4433b762430505e6d143308f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 20/55] fix: reject an invalid JSON key signature instead of
 panicking

---
 midi/events/meta/key_signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..d1770be 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -212,6 +212,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", t.KeyType)
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("Invalid major key signature (%d accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("Invalid minor key signature (%d accidentals)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
-- 
2.43.0


From 035c49f3fcfa9692d92082ab90d5ff2de9eb151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 21/55] fix: reject an unknown key in a text KeySignature
 instead of assembling C major

---
 midi/events/meta/key_signature.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index d1770be..fc4475c 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -154,12 +154,14 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 	} else {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
+		found := false
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("invalid KeySignature event (%v): unknown key", string(text))
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
-- 
2.43.0


From 5260fbd7bbe133feb43e339d89d9eb8fd97dbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:04 +0000
Subject: [PATCH 22/55] fix: reject an invalid text or JSON SMPTE offset
 instead of panicking

---
 midi/events/meta/smpte_offset.go | 60 ++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..38b85cf 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -20,28 +20,8 @@ type SMPTEOffset struct {
 }
 
 func MakeSMPTEOffset(tick uint64, delta lib.Delta, hour, minute, second, frameRate, frames, fractionalFrames uint8, bytes ...byte) SMPTEOffset {
-	if hour > 24 {
-		panic(fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour))
-	}
-
-	if minute > 59 {
-		panic(fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute))
-	}
-
-	if second > 59 {
-		panic(fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second))
-	}
-
-	if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
-		panic(fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate))
-	}
-
-	if frames >= frameRate {
-		panic(fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1))
-	}
-
-	if fractionalFrames > 100 {
-		panic(fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractionalFrames))
+	if err := validateSMPTEOffset(hour, minute, second, frameRate, frames, fractionalFrames); err != nil {
+		panic(err)
 	}
 
 	return SMPTEOffset{
@@ -62,6 +42,34 @@ func MakeSMPTEOffset(tick uint64, delta lib.Delta, hour, minute, second, frameRa
 	}
 }
 
+func validateSMPTEOffset(hour, minute, second, frameRate, frames, fractionalFrames uint8) error {
+	if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	}
+
+	if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	}
+
+	if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
+	}
+
+	if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
+	}
+
+	if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
+	}
+
+	if fractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractionalFrames)
+	}
+
+	return nil
+}
+
 func (e *SMPTEOffset) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
 	if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset length (%d): expected '5'", len(data))
@@ -224,10 +232,8 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if fractions, err := strconv.ParseUint(match[7], 10, 8); err != nil {
 		return err
-	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
-		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
-	} else if fractions > 100 {
-		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
+	} else if err := validateSMPTEOffset(uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions)); err != nil {
+		return err
 	} else {
 		*e = MakeSMPTEOffset(0, delta, uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions), []byte{}...)
 	}
@@ -279,6 +285,8 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if err := validateSMPTEOffset(t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames); err != nil {
+		return err
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
-- 
2.43.0


From c79b7d4a00e7f3f0a054e98575e3636728d714c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 23/55] fix: reject tempo and byte values that do not fit their
 encoding instead of truncating them

---
 midi/events/meta/tempo.go | 4 ++++
 midi/lib/hex.go           | 4 ++++
 midi/lib/manufacturer.go  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..48a8df0 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0xffffff {
+		return fmt.Errorf("invalid Tempo (%v): expected a 24 bit value", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0xffffff {
+		return fmt.Errorf("invalid Tempo (%v): expected a 24 bit value", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..79b4923 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 255 {
+			return fmt.Errorf("invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..fa6fc25 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 255 {
+			return fmt.Errorf("invalid manufacturer ID (%v)", manufacturer.ID)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From 66517f8650cf4a1f7365d2e7b311115c87c99d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:33 +0000
Subject: [PATCH 24/55] fix: identify a text event by its tag only, not by the
 text of the event

---
 midi/events/text.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..9d1e469 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -3,6 +3,7 @@ package events
 import (
 	"encoding"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/transcriptaze/midiasm/midi/events/meta"
@@ -10,9 +11,17 @@ import (
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
+// Matches the event tag i.e. the tag that follows the 'delta' field and the (optional) event status and type.
+var tag = regexp.MustCompile(`delta:[0-9]+\s+(?:[0-9A-Fa-f]{2}\s+)*(SequenceNumber|Text|Copyright|TrackName|InstrumentName|Lyric|Marker|CuePoint|ProgramName|DeviceName|MIDIChannelPrefix|MIDIPort|Tempo|TimeSignature|KeySignature|SMPTEOffset|EndOfTrack|SequencerSpecificEvent|NoteOff|NoteOn|PolyphonicPressure|Controller|ProgramChange|ChannelPressure|PitchBend|SysExMessage|SysExContinuation|SysExEscape)(?:\s|$)`)
+
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
+	// ... use only the tag to identify the event - the text of e.g. a lyric may contain the tag of another event
+	if match := tag.FindStringSubmatch(s); match != nil {
+		s = match[1]
+	}
+
 	switch {
 	case strings.Contains(s, "SequenceNumber"):
 		return unmarshalText[metaevent.SequenceNumber](e, text)
-- 
2.43.0


From 186b3da4c5dae2b2216e0ca4d39e3ea551defa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:35 +0000
Subject: [PATCH 25/55] fix: do not start a chunk at a comment or an event that
 contains MThd or MTrk

---
 ops/assemble/text.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..01e3ae1 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -37,7 +37,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 			case strings.HasPrefix(line, "%%"):
 				// comment - ignore
 
-			case strings.Contains(line, "MThd"):
+			case isChunk(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +46,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isChunk(line, "MTrk"):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
@@ -101,8 +101,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +109,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isChunk(line, "MThd") || isChunk(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -133,9 +131,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 	close(chunks)
 }
 
+// Returns true if the line is the start of a chunk i.e. is not a comment or the text of an event.
+func isChunk(line string, tag string) bool {
+	return !strings.HasPrefix(line, "%%") && !strings.Contains(line, "delta:") && strings.Contains(line, tag)
+}
+
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			var format uint16
 			var division uint16
 
@@ -195,7 +198,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isChunk(line, "MTrk") {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From c1666dc9d9c83b94b339d8b63db8b70f11ea8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:36 +0000
Subject: [PATCH 26/55] fix: stop the line reader goroutine when a text MTrk is
 invalid

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 01e3ae1..1eff5ab 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -187,7 +187,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
 
-- 
2.43.0


From 51dc9eb153832660a87c1c93109f31fea6c74a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:37 +0000
Subject: [PATCH 27/55] fix: keep the SMPTE time division of a MIDI file
 exported to JSON

---
 ops/assemble/json.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..8b0f860 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -16,9 +16,11 @@ type JSONAssembler struct {
 }
 
 type mthd struct {
-	Tag    *string `json:"tag,omitempty"`
-	Format *uint16 `json:"format,omitempty"`
-	PPQN   *uint16 `json:"PPQN,omitempty"`
+	Tag           *string `json:"tag,omitempty"`
+	Format        *uint16 `json:"format,omitempty"`
+	PPQN          *uint16 `json:"PPQN,omitempty"`
+	SMPTETimeCode bool    `json:"SMPTETimeCode,omitempty"`
+	Division      *uint16 `json:"Division,omitempty"`
 }
 
 type mtrk struct {
@@ -88,10 +90,16 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 		format = *h.Format
 	}
 
-	if h.PPQN == nil {
+	if h.PPQN == nil && !h.SMPTETimeCode {
 		return nil, fmt.Errorf("missing 'metrical-time' field in header")
+	} else if h.Division == nil && h.SMPTETimeCode {
+		return nil, fmt.Errorf("missing 'division' field in header")
 	} else {
-		division = *h.PPQN
+		if h.SMPTETimeCode {
+			division = *h.Division
+		} else {
+			division = *h.PPQN
+		}
 
 		if division&0x8000 == 0x8000 {
 			fps := division & 0xff00 >> 8
-- 
2.43.0


From 577d3313fc5df14365edb0f87293698c63901a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 28/55] fix: report a chunk that is shorter than its length
 without allocating the length up front

---
 encoding/midi/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..5cbeafc 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -1,6 +1,7 @@
 package midifile
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -88,11 +89,13 @@ func (r *chunker) next() ([]byte, error) {
 	}
 
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
+	chunk := bytes.NewBuffer(buffer)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if n, err := io.CopyN(chunk, r.reader, int64(N)); err == io.EOF && n < int64(N) {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
-	return append(buffer, chunk...), nil
+	return chunk.Bytes(), nil
 }
-- 
2.43.0


From 471bfbfca32632d8054594c46a2d5d7e41dc99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 29/55] fix: do not allocate the declared length of an event
 before reading its data

---
 midi/events/event.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..0454a30 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
 	for i := 0; i < int(N); i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From 0d1d06c58c897dad66c8bc2b0d8f84b14391d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:36 +0000
Subject: [PATCH 30/55] =?UTF-8?q?fix:=20use=20a=20default=20tempo=20of=201?=
 =?UTF-8?q?20=20BPM=20(500000=C2=B5s=20per=20quarter=20note)=20for=20note?=
 =?UTF-8?q?=20times?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..a09ec43 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -116,7 +116,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From c0676ac89f033cd43602d4c99eb0702919e0373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:38 +0000
Subject: [PATCH 31/55] fix: use the tempo in effect for each part of an
 interval that includes a tempo change

---
 ops/notes/notes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a09ec43..d8faf4b 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -118,8 +118,12 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	tick := uint64(0)
 
 	for i, e := range list {
+		// the delta has to be relative to the preceding event in the merged list, which may be a tempo change
+		e.delta = e.tick - tick
+		tick = e.tick
 		// beat = float64(tick) / float64(ppqn)
 		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
 		at += delta
-- 
2.43.0


From c4ef44d7460582c36a55f84beddc7391f8304efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:39 +0000
Subject: [PATCH 32/55] fix: do not panic extracting the notes of a MIDI file
 with no tracks or no PPQN

---
 ops/notes/notes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index d8faf4b..dee80d4 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -61,6 +61,15 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	// ... ticks can only be converted to time if the MIDI file uses metrical time
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("notes require a MIDI file with a metrical time division")
+	}
+
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From 48196e8887ee75f9003d3d8c701ca5dcad847f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 33/55] fix: extract the notes of a FORMAT 0 MIDI file

---
 ops/notes/notes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index dee80d4..6faafac 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -74,7 +74,12 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	tempoMap := buildTempoMap(*smf)
 
 	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	tracks := smf.Tracks[1:]
+	if smf.MThd.Format == 0 {
+		tracks = smf.Tracks
+	}
+
+	for _, track := range tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
-- 
2.43.0


From 3a3f0340e2169ea87285309370fce2f2d11795a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:42 +0000
Subject: [PATCH 34/55] fix: limit transposed notes to the MIDI note range

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 6faafac..1a1df32 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -290,8 +290,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From 018734fea681a8f64ac66c0b46815da5c7a8e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:43 +0000
Subject: [PATCH 35/55] fix: list the notes ended by an EndOfTrack in a fixed
 order

---
 ops/notes/notes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 1a1df32..9919958 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -250,7 +250,13 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for n := 0; n < 256; n++ {
+						k := uint8(n)
+						p, ok := list[k]
+						if !ok {
+							continue
+						}
+
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
-- 
2.43.0


From 6457ed4b923497beef4b2c96366eee7fdc083741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 36/55] fix: report errors writing the notes

---
 ops/notes/notes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 9919958..d59dc40 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -49,13 +49,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -309,7 +307,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -348,8 +348,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From 1018d9baaee1d3fb74b870512545c2be46dcbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:46 +0000
Subject: [PATCH 37/55] fix: do not panic validating a FORMAT 1 MIDI file with
 no tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From 12f76b4e3f5e39fac8e872666c66a8688cc857db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 38/55] fix: report a 'Bank Select MSB' without an LSB at the
 end of a track

---
 midi/smf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/smf.go b/midi/smf.go
index f02c318..70686f0 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -71,6 +71,10 @@ func (smf *SMF) Validate() []ValidationError {
 
 			last = e.Event
 		}
+
+		if cx, ok := last.(midievent.Controller); ok && cx.Controller.ID == 0x00 {
+			errors = append(errors, ValidationError(fmt.Errorf("Track %d: 'Bank Select MSB' event @%d missing LSB (%s)", track.TrackNumber, len(track.Events), events.Clean(last))))
+		}
 	}
 
 	return errors
-- 
2.43.0


From 640d115df4835929ff6fa2c117b7d073d8d8dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:49 +0000
Subject: [PATCH 39/55] fix: do not panic on a MIDI file with no tracks

---
 ops/click/click.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..e2a4345 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -41,6 +41,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
 
+	if len(smf.Tracks) == 0 {
+		return nil
+	}
+
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(*metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
-- 
2.43.0


From 3a041e7ba2fb6d0c6ff0afeef066ef9db5f45bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:50 +0000
Subject: [PATCH 40/55] fix: write the assembled MIDI file to the default
 output file

---
 commands/assemble.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..30baf2e 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,10 +69,13 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
+	}
+
+	if err := os.WriteFile(out, midi, 0660); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From e00a21c51c5c65848083a9ebba21d4280243dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 41/55] fix: create the directory for split tracks with usable
 permissions

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..fa017d4 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -115,7 +115,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0777)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f717024b1a2076e4713dcfcf45f3955018867f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:52 +0000
Subject: [PATCH 42/55] fix: report errors writing split tracks

---
 commands/disassemble.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index fa017d4..46e7eb4 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -129,7 +129,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	}
 
 	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
+		w.Close()
+		return fmt.Errorf("error extracting MThd information (%w)", err)
 	}
 
 	w.Close()
@@ -143,7 +144,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		}
 
 		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
+			w.Close()
+			return fmt.Errorf("error extracting MTrk%d information (%w)", mtrk.TrackNumber, err)
 		}
 
 		w.Close()
-- 
2.43.0


From 6b39723a1404dd1bd26f7449ed0c0b2ac0b1578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:53 +0000
Subject: [PATCH 43/55] fix: report errors writing a TSV table

---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 135341fbefcacbff4860b30bf18dec56884e68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 44/55] fix: find the SysEx continuations of a track in linear
 time

---
 ops/assemble/assemble.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 3a2df79..9562060 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -13,9 +13,11 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
+	following := successors(mtrk.Events)
+
 	for ix := range mtrk.Events {
 		previous := mtrk.Events[ix]
-		event := next(mtrk.Events[ix+1:])
+		event := following[ix]
 
 		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
 			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
@@ -33,7 +35,7 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 
 	for ix := range mtrk.Events {
 		previous := mtrk.Events[ix]
-		event := next(mtrk.Events[ix+1:])
+		event := following[ix]
 
 		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
 			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
@@ -52,10 +54,16 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 	return mtrk, nil
 }
 
-// Returns the next SysEx event in the list (the packets of a SysEx message may be interleaved with other events).
-func next(list []*events.Event) *events.Event {
-	for _, e := range list {
-		switch e.Event.(type) {
+// Returns, for each event in the list, the next SysEx event (the packets of a SysEx message may be interleaved with
+// other events).
+func successors(list []*events.Event) []*events.Event {
+	following := make([]*events.Event, len(list))
+	next := &events.Event{}
+
+	for ix := len(list) - 1; ix >= 0; ix-- {
+		following[ix] = next
+
+		switch list[ix].Event.(type) {
 		case
 			sysex.SysExMessage,
 			sysex.SysExContinuationMessage,
@@ -63,9 +71,9 @@ func next(list []*events.Event) *events.Event {
 			*sysex.SysExMessage,
 			*sysex.SysExContinuationMessage,
 			*sysex.SysExEscapeMessage:
-			return e
+			next = list[ix]
 		}
 	}
 
-	return &events.Event{}
+	return following
 }
-- 
2.43.0


From e05219c27a6cf9ae3c96b8d9665e99342ddf65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 45/55] fix: assemble text listings with lines longer than 64K

---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 1eff5ab..6aadd0b 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -74,6 +75,8 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt)
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 401edb90b71e233bfddcf5c6d7c1f2d68977a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 46/55] fix: format hex data in linear time

---
 midi/lib/hex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 79b4923..9342284 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -20,12 +20,12 @@ func ParseHex(s string) (Hex, error) {
 }
 
 func (bytes Hex) String() string {
-	s := ""
+	var s strings.Builder
 	for _, b := range bytes {
-		s += fmt.Sprintf("%02X ", b)
+		fmt.Fprintf(&s, "%02X ", b)
 	}
 
-	return strings.TrimSpace(s)
+	return strings.TrimSpace(s.String())
 }
 
 func (h Hex) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 072bcf0aff80eff8684d22bb2c12c261678655a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:24 +0000
Subject: [PATCH 47/55] fix: report text events and tracks that precede their
 MTrk or MThd instead of dropping them

---
 ops/assemble/text.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 6aadd0b..2133a14 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -33,6 +33,10 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	smf := midi.SMF{}
 
 	for _, chunk := range chunks {
+		if err := a.stray(chunk, smf.MThd != nil); err != nil {
+			return nil, err
+		}
+
 		for _, line := range chunk {
 			switch {
 			case strings.HasPrefix(line, "%%"):
@@ -116,6 +120,11 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 			chunk = []string{line}
 			break
 		}
+
+		if isChunk(line, "MTrk") || isEvent(line) {
+			chunk = []string{line}
+			break
+		}
 	}
 
 	for line := range lines {
@@ -139,6 +148,34 @@ func isChunk(line string, tag string) bool {
 	return !strings.HasPrefix(line, "%%") && !strings.Contains(line, "delta:") && strings.Contains(line, tag)
 }
 
+// Returns true if the line is not a comment and has the delta of an event.
+func isEvent(line string) bool {
+	return !strings.HasPrefix(line, "%%") && strings.Contains(line, "delta:")
+}
+
+// Returns an error for a track that precedes the MThd and for lines that are not part of a track.
+func (a TextAssembler) stray(chunk []string, header bool) error {
+	if isChunk(chunk[0], "MTrk") {
+		if !header {
+			return fmt.Errorf("missing MThd before '%s'", strings.TrimSpace(chunk[0]))
+		}
+
+		return nil
+	}
+
+	if isEvent(chunk[0]) {
+		return fmt.Errorf("event outside an MTrk: '%s'", strings.TrimSpace(chunk[0]))
+	}
+
+	for _, line := range chunk[1:] {
+		if !strings.HasPrefix(line, "%%") && strings.TrimSpace(line) != "" {
+			return fmt.Errorf("unexpected line in MThd: '%s'", strings.TrimSpace(line))
+		}
+	}
+
+	return nil
+}
+
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
 		if isChunk(line, "MThd") {
-- 
2.43.0


From 0c566a72ce60e9e86ced44e9902534c53ff42d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:32 +0000
Subject: [PATCH 48/55] fix: reject JSON SysEx and sequencer specific events
 without a valid manufacturer ID

---
 midi/events/meta/sequencer_specific.go | 2 ++
 midi/events/sysex/message.go           | 2 ++
 midi/lib/manufacturer.go               | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index aebd413..3cece1b 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -153,6 +153,8 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; len(id) == 0 || (id[0] == 0x00 && len(id) < 3) {
+		return fmt.Errorf("missing or invalid manufacturer ID (%v)", string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 9dc8b87..b36d498 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -177,6 +177,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSysExMessage) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if len(t.Manufacturer.ID) == 0 {
+		return fmt.Errorf("missing manufacturer ID (%v)", string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index fa6fc25..cc6750d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -51,6 +51,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 		id = append(id, byte(b))
 	}
 
+	if len(id) != 1 && (len(id) != 3 || id[0] != 0x00) {
+		return fmt.Errorf("invalid manufacturer ID (%v)", manufacturer.ID)
+	}
+
 	*m = LookupManufacturer(id)
 
 	return nil
-- 
2.43.0


From 6e4d49e4ac1c4e16bef3605d5a6f3baf0faa4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 49/55] fix: do not panic transposing a MIDI file that has been
 transposed before

---
 ops/transpose/transpose.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ops/transpose/transpose.go b/ops/transpose/transpose.go
index f359f1b..5c34529 100644
--- a/ops/transpose/transpose.go
+++ b/ops/transpose/transpose.go
@@ -34,6 +34,7 @@ func transpose(mtrk midi.MTrk, steps int) *midi.MTrk {
 		Tag:         "MTrk",
 		TrackNumber: mtrk.TrackNumber,
 		Events:      []*events.Event{},
+		Context:     mtrk.Context,
 	}
 
 	for i, _ := range mtrk.Events {
-- 
2.43.0


From 9e5f8cf9018c8f013fb276bd1a6befe3d752e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:24 +0000
Subject: [PATCH 50/55] fix: reject a text MThd format with more than one digit
 instead of using the first

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 2133a14..701f1fc 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -182,7 +182,7 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:(0|1|2)\b`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From de3ce81d673aac35827dbb8d0e046032cd0758c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 51/55] fix: reject data bytes over 127 when a channel event is
 decoded on its own

---
 midi/events/midi/controller.go     | 2 ++
 midi/events/midi/note_off.go       | 2 ++
 midi/events/midi/note_on.go        | 2 ++
 midi/events/midi/pitch_bend.go     | 2 ++
 midi/events/midi/program_change.go | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 328d4ed..3b3ec86 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -77,6 +77,8 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid Controller data (%v)", data)
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index bfd5e04..b6b9fee 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -139,6 +139,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if note := data[0]; note > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", note)
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 77f341f..024b42e 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -89,6 +89,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if note := data[0]; note > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", note)
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 83d8254..58b3746 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -78,6 +78,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid PitchBend data")
 	} else if pressure := data[0]; pressure > 127 {
 		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend data (%v)", data)
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 1e3666f..d38641c 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -71,6 +71,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
-- 
2.43.0


From ed2a8d7a9e6438734a1eead72d0fd9f1b0e8d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:57 +0000
Subject: [PATCH 52/55] fix: reject a meta event of the wrong length when it is
 decoded on its own

---
 midi/events/meta/end_of_track.go        | 2 ++
 midi/events/meta/key_signature.go       | 2 +-
 midi/events/meta/midi_channel_prefix.go | 2 +-
 midi/events/meta/midi_port.go           | 2 +-
 midi/events/meta/sequence_number.go     | 2 +-
 midi/events/meta/smpte_offset.go        | 2 +-
 midi/events/meta/tempo.go               | 2 +-
 midi/events/meta/time_signature.go      | 2 +-
 8 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..b17d5a1 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -48,6 +48,8 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if _, err := vlf(remaining[2:]); err != nil {
+		return err
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index fc4475c..1619db4 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -115,7 +115,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagKeySignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) != 2 {
 		return fmt.Errorf("Invalid KeySignature data")
 	} else {
 		var accidentals = int8(data[0])
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index f04ddf7..5d58d4e 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -66,7 +66,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIChannelPrefix, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel data")
 	} else if channel := data[0]; channel > 15 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel (%d): expected a value in the interval [0..15]", channel)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index bc6c52d..b7ecf82 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -68,7 +68,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIPort, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIPort channel data")
 	} else if port := data[0]; port > 127 {
 		return fmt.Errorf("Invalid MIDIPort port (%d): expected a value in the interval [0..127]", port)
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 8c3691e..9e1cbf2 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,7 +63,7 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(v) < 2 {
+	} else if len(v) != 2 {
 		return fmt.Errorf("Invalid SequenceNumber data")
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index 38b85cf..fd1a1cc 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -161,7 +161,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSMPTEOffset, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 5 {
+	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
 		rr := (data[0] >> 5) & 0x03
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 48a8df0..3520cf4 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -75,7 +75,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTempo, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 3 {
+	} else if len(data) != 3 {
 		return fmt.Errorf("Invalid Tempo data")
 	} else {
 		tempo := uint32(data[0])
diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index dc0e3cc..934e14a 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -97,7 +97,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else if data[1] > 7 {
 		return fmt.Errorf("Invalid TimeSignature denominator (2^%d)", data[1])
-- 
2.43.0


From 206926060a3410edfc86d01fd46ea7702145d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:21 +0000
Subject: [PATCH 53/55] fix: keep all 8 bits of the SMPTE ticks per frame when
 a header is made from its division

---
 midi/MThd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/MThd.go b/midi/MThd.go
index 645530a..d631a64 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -49,7 +49,7 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 		mthd.PPQN = division & 0x7fff
 	} else {
 		mthd.SMPTETimeCode = true
-		mthd.SubFrames = division & 0x007f
+		mthd.SubFrames = division & 0x00ff
 
 		fps := division & 0xff00 >> 8
 		switch fps {
-- 
2.43.0


From 2c4738881ae4fd63a5ce95a272be0abfe3c92bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:23 +0000
Subject: [PATCH 54/55] fix: reject numbers with trailing characters in text
 events

---
 midi/events/meta/key_signature.go       |  2 +-
 midi/events/meta/midi_channel_prefix.go |  2 +-
 midi/events/meta/midi_port.go           |  2 +-
 midi/events/meta/sequence_number.go     |  2 +-
 midi/events/meta/smpte_offset.go        |  2 +-
 midi/events/meta/tempo.go               |  2 +-
 midi/events/midi/channel_pressure.go    |  2 +-
 midi/events/midi/controller.go          |  2 +-
 midi/events/midi/note_off.go            |  2 +-
 midi/events/midi/note_on.go             |  2 +-
 midi/events/midi/pitch_bend.go          |  2 +-
 midi/events/midi/polyphonic_pressure.go |  2 +-
 midi/events/midi/program_change.go      |  2 +-
 midi/events/text.go                     | 10 ++++++++++
 14 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 1619db4..ddbc6de 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -145,7 +145,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *KeySignature) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)KeySignature\s+([ABCDEFG][♯♭]?)\s+(major|minor)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)KeySignature\s+([ABCDEFG][♯♭]?)\s+(major|minor)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 4 {
 		return fmt.Errorf("invalid KeySignature event (%v)", text)
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index 5d58d4e..7b0115b 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -78,7 +78,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *MIDIChannelPrefix) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)MIDIChannelPrefix\s+([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)MIDIChannelPrefix\s+([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 3 {
 		return fmt.Errorf("invalid MIDIChannelPrefix event (%v)", text)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index b7ecf82..8717350 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -80,7 +80,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *MIDIPort) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)MIDIPort\s+([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)MIDIPort\s+([0-9]+)(?:\s|$)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 3 {
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 9e1cbf2..39a0f63 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -73,7 +73,7 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *SequenceNumber) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)SequenceNumber\s+([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)SequenceNumber\s+([0-9]+)(?:\s|$)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 3 {
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index fd1a1cc..0ff948e 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -214,7 +214,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *SMPTEOffset) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)SMPTEOffset\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)SMPTEOffset\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 8 {
 		return fmt.Errorf("invalid SMPTEOffset event (%v)", text)
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 3520cf4..d707396 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -91,7 +91,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *Tempo) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)Tempo\s+tempo:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)Tempo\s+tempo:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 3 {
 		return fmt.Errorf("invalid Tempo event (%v)", text)
diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index 02df880..0469ccb 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -91,7 +91,7 @@ func (e *ChannelPressure) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *ChannelPressure) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)ChannelPressure\s+channel:([0-9]+)\s+pressure:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)ChannelPressure\s+channel:([0-9]+)\s+pressure:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 4 {
 		return fmt.Errorf("invalid ChannelPressure event (%v)", text)
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 3b3ec86..027dfb3 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -89,7 +89,7 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *Controller) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)Controller.*\s+channel:([0-9]+)\s+([0-9]+)(?:.*)?value:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)Controller.*\s+channel:([0-9]+)\s+([0-9]+)(?:/.*|[,\s]*)value:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 5 {
 		return fmt.Errorf("invalid Controller event (%v)", text)
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index b6b9fee..c029295 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -163,7 +163,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)(?:\s|$)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 024b42e..8f79caa 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -107,7 +107,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)(?:\s|$)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 58b3746..fd2ab0e 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -92,7 +92,7 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *PitchBend) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)PitchBend\s+channel:([0-9]+)\s+bend:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)PitchBend\s+channel:([0-9]+)\s+bend:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 4 {
 		return fmt.Errorf("invalid PitchBend event (%v)", text)
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 9c553c3..ddee5b0 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -83,7 +83,7 @@ func (e *PolyphonicPressure) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *PolyphonicPressure) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)PolyphonicPressure\s+channel:([0-9]+)\s+pressure:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)PolyphonicPressure\s+channel:([0-9]+)\s+pressure:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 4 {
 		return fmt.Errorf("invalid PolyphonicPressure event (%v)", text)
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index d38641c..0c9d0d1 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -84,7 +84,7 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *ProgramChange) UnmarshalText(text []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)ProgramChange\s+channel:([0-9]+)\s+bank:([0-9]+),\s*program:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)ProgramChange\s+channel:([0-9]+)\s+bank:([0-9]+),\s*program:([0-9]+)(?:\s|$)`)
 
 	if match := re.FindStringSubmatch(string(text)); match == nil || len(match) < 5 {
 		return fmt.Errorf("invalid ProgramChange event (%v)", text)
diff --git a/midi/events/text.go b/midi/events/text.go
index 9d1e469..5c15448 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -14,9 +14,19 @@ import (
 // Matches the event tag i.e. the tag that follows the 'delta' field and the (optional) event status and type.
 var tag = regexp.MustCompile(`delta:[0-9]+\s+(?:[0-9A-Fa-f]{2}\s+)*(SequenceNumber|Text|Copyright|TrackName|InstrumentName|Lyric|Marker|CuePoint|ProgramName|DeviceName|MIDIChannelPrefix|MIDIPort|Tempo|TimeSignature|KeySignature|SMPTEOffset|EndOfTrack|SequencerSpecificEvent|NoteOff|NoteOn|PolyphonicPressure|Controller|ProgramChange|ChannelPressure|PitchBend|SysExMessage|SysExContinuation|SysExEscape)(?:\s|$)`)
 
+// Matches the 'delta' field of an event.
+var delta = regexp.MustCompile(`(?i)delta:(\S*)`)
+
+// Matches a valid 'delta'.
+var digits = regexp.MustCompile(`^[0-9]+$`)
+
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
+	if match := delta.FindStringSubmatch(s); match != nil && !digits.MatchString(match[1]) {
+		return fmt.Errorf("invalid event delta (%v)", s)
+	}
+
 	// ... use only the tag to identify the event - the text of e.g. a lyric may contain the tag of another event
 	if match := tag.FindStringSubmatch(s); match != nil {
 		s = match[1]
-- 
2.43.0


From 513a7717a366538e5f7c313c7d1bd9e311b0b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:23 +0000
Subject: [PATCH 55/55] fix: reject a format with trailing characters in text
 MThd

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 701f1fc..5bf3561 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -182,7 +182,7 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)\b`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:(0|1|2)(?:[,\s]|$)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0

