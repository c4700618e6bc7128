package main

// P18: every field of every event, in text, JSON and binary, with values inside and outside its range.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// A field of an event: where it is in the text line and in the JSON object, its range and its value in
// the decoded event.
type Field struct {
	Kind  Kind
	Name  string
	Text  string               // listing line with %s for the value, "" if not applicable
	JSON  string               // JSON event with %s for the value
	Valid func(v *big.Int) Tri // in the range of the field
	Get   func(e *Ev) int64    // the value in the decoded event
	Dense int                  // enumerate 0..Dense
	Rest  func(e *Ev) error    // the other fields of the event

}

type Tri int

const (
	no Tri = iota
	yes
	either
)

func rng(lo, hi int64) func(v *big.Int) Tri {
	return func(v *big.Int) Tri {
		if v.IsInt64() && v.Int64() >= lo && v.Int64() <= hi {
			return yes
		}
		return no
	}
}

func in64(vs ...int64) func(v *big.Int) Tri {
	return func(v *big.Int) Tri {
		for _, x := range vs {
			if v.IsInt64() && v.Int64() == x {
				return yes
			}
		}
		return no
	}
}

func vget(i int) func(e *Ev) int64 { return func(e *Ev) int64 { return int64(e.V[i]) } }
func vch(e *Ev) int64              { return int64(e.Ch) }
func vdelta(e *Ev) int64           { return int64(e.Delta) }

// The other values: channel, delta and fields (-1: any).
func rest(delta int64, ch int, v ...int64) func(e *Ev) error {
	return func(e *Ev) error {
		if delta >= 0 && int64(e.Delta) != delta {
			return fmt.Errorf("delta %d instead of %d", e.Delta, delta)
		}
		if ch >= 0 && int(e.Ch) != ch {
			return fmt.Errorf("channel %d instead of %d", e.Ch, ch)
		}
		for i, x := range v {
			if x >= 0 && int64(e.V[i]) != x {
				return fmt.Errorf("field %d is %d instead of %d", i, e.V[i], x)
			}
		}
		return nil
	}
}

func valueFields() []Field {
	j := func(tag, s string) string { return fmt.Sprintf(`{"event":{"tag":"%s","delta":7,%s}}`, tag, s) }
	t := func(code, tag, s string) string {
		return fmt.Sprintf("      00   tick:0          delta:7          %s %-22s %s", code, tag, s)
	}
	fs := []Field{}
	add := func(f Field) { fs = append(fs, f) }
	for _, on := range []bool{false, true} {
		tag, code, k := ifelse(on, "NoteOn", "NoteOff"), ifelse(on, "95", "85"), ifelse(on, kNoteOn, kNoteOff)
		add(Field{k, "channel", t(code, tag, "channel:%s  note:C4, velocity:72"), j(tag, `"channel":%s,"note":{"value":60,"name":"C4","alias":"C4"},"velocity":72`), rng(0, 15), vch, 300, rest(7, -1, 60, 72)})
		add(Field{k, "velocity", t(code, tag, "channel:5  note:C4, velocity:%s"), j(tag, `"channel":5,"note":{"value":60,"name":"C4","alias":"C4"},"velocity":%s`), rng(0, 127), vget(1), 600, rest(7, 5, 60)})
		add(Field{k, "note", "", j(tag, `"channel":5,"note":{"value":%s,"name":"C4","alias":"C4"},"velocity":72`), rng(0, 127), vget(0), 600, rest(7, 5, -1, 72)})
		add(Field{k, "delta", fmt.Sprintf("   tick:0  delta:%%s  %s %s  channel:5  note:C4, velocity:72", code, tag), fmt.Sprintf(`{"event":{"tag":"%s","delta":%%s,"channel":5,"note":{"value":60},"velocity":72}}`, tag), func(v *big.Int) Tri {
			switch {
			case v.Sign() < 0 || v.BitLen() > 32:
				return no
			case v.BitLen() > 28:
				return either
			}
			return yes
		}, vdelta, 300, rest(-1, 5, 60, 72)})
	}
	for _, p := range []struct {
		k    Kind
		code string
	}{{kPolyphonicPressure, "A5"}, {kChannelPressure, "D5"}} {
		tag := p.k.String()
		add(Field{p.k, "channel", t(p.code, tag, "channel:%s  pressure:7"), j(tag, `"channel":%s,"pressure":7`), rng(0, 15), vch, 300, rest(7, -1, 7)})
		add(Field{p.k, "pressure", t(p.code, tag, "channel:5  pressure:%s"), j(tag, `"channel":5,"pressure":%s`), rng(0, 127), vget(0), 600, rest(7, 5)})
	}
	add(Field{kController, "channel", t("B5", "Controller", "channel:%s  101/Registered Parameter Number (MSB), value:3"), j("Controller", `"channel":%s,"controller":{"id":101,"name":"x"},"value":3`), rng(0, 15), vch, 300, rest(7, -1, 101, 3)})
	add(Field{kController, "id", t("B5", "Controller", "channel:5  %s/Whatever, value:3"), j("Controller", `"channel":5,"controller":{"id":%s,"name":"x"},"value":3`), rng(0, 127), vget(0), 600, rest(7, 5, -1, 3)})
	add(Field{kController, "value", t("B5", "Controller", "channel:5  7/Channel Volume (MSB), value:%s"), j("Controller", `"channel":5,"controller":{"id":7,"name":"x"},"value":%s`), rng(0, 127), vget(1), 600, rest(7, 5, 7)})
	add(Field{kProgramChange, "channel", t("C5", "ProgramChange", "channel:%s  bank:0, program:25"), j("ProgramChange", `"channel":%s,"bank":0,"program":25`), rng(0, 15), vch, 300, rest(7, -1, -1, 25)})
	add(Field{kProgramChange, "program", t("C5", "ProgramChange", "channel:5  bank:0, program:%s"), j("ProgramChange", `"channel":5,"bank":0,"program":%s`), rng(0, 127), vget(1), 600, rest(7, 5)})
	add(Field{kPitchBend, "channel", t("E5", "PitchBend", "channel:%s  bend:8"), j("PitchBend", `"channel":%s,"bend":8`), rng(0, 15), vch, 300, rest(7, -1, 8)})
	add(Field{kPitchBend, "bend", t("E5", "PitchBend", "channel:5  bend:%s"), j("PitchBend", `"channel":5,"bend":%s`), rng(0, 16383), vget(0), 17000, rest(7, 5)})
	add(Field{kSequenceNumber, "number", t("00", "SequenceNumber", "%s"), j("SequenceNumber", `"sequence-number":%s`), rng(0, 65535), vget(0), 66000, rest(7, -1)})
	add(Field{kMIDIChannelPrefix, "channel", t("20", "MIDIChannelPrefix", "%s"), j("MIDIChannelPrefix", `"channel":%s`), rng(0, 15), vget(0), 600, rest(7, -1)})
	add(Field{kMIDIPort, "port", t("21", "MIDIPort", "%s"), j("MIDIPort", `"port":%s`), rng(0, 127), vget(0), 600, rest(7, -1)})
	add(Field{kTempo, "tempo", t("51", "Tempo", "tempo:%s"), j("Tempo", `"tempo":%s`), rng(0, 1<<24-1), vget(0), 3000, rest(7, -1)})
	add(Field{kTimeSignature, "numerator", t("58", "TimeSignature", "%s/8, 24 ticks per click, 9/32 per quarter"), j("TimeSignature", `"numerator":%s,"denominator":8,"ticks-per-click":24,"thirty-seconds-per-quarter":9`), rng(0, 255), vget(0), 600, rest(7, -1, -1, 8, 24, 9)})
	add(Field{kTimeSignature, "denominator", t("58", "TimeSignature", "3/%s, 24 ticks per click, 9/32 per quarter"), j("TimeSignature", `"numerator":3,"denominator":%s,"ticks-per-click":24,"thirty-seconds-per-quarter":9`), in64(1, 2, 4, 8, 16, 32, 64, 128), vget(1), 600, rest(7, -1, 3, -1, 24, 9)})
	add(Field{kTimeSignature, "ticks", t("58", "TimeSignature", "3/8, %s ticks per click, 9/32 per quarter"), j("TimeSignature", `"numerator":3,"denominator":8,"ticks-per-click":%s,"thirty-seconds-per-quarter":9`), rng(0, 255), vget(2), 600, rest(7, -1, 3, 8, -1, 9)})
	add(Field{kTimeSignature, "32nds", t("58", "TimeSignature", "3/8, 24 ticks per click, %s/32 per quarter"), j("TimeSignature", `"numerator":3,"denominator":8,"ticks-per-click":24,"thirty-seconds-per-quarter":%s`), rng(0, 255), vget(3), 600, rest(7, -1, 3, 8, 24)})
	smpte := func(i int, valid func(*big.Int) Tri) {
		names := []string{"hour", "minute", "second", "frame-rate", "frames", "fractional-frames"}
		def := []int64{13, 45, 59, 30, 7, 39}
		tx, js := []string{}, []string{}
		want := []int64{}
		for k := range names {
			s, d := fmt.Sprint(def[k]), def[k]
			if k == i {
				s, d = "%s", -1
			}
			tx = append(tx, s)
			js = append(js, fmt.Sprintf(`"%s":%s`, names[k], s))
			want = append(want, d)
		}
		add(Field{kSMPTEOffset, names[i], t("54", "SMPTEOffset", strings.Join(tx, " ")), j("SMPTEOffset", strings.Join(js, ",")), valid, vget(i), 600, rest(7, -1, want...)})
	}
	upto := func(hi, maybe int64) func(*big.Int) Tri {
		return func(v *big.Int) Tri {
			if v.IsInt64() && v.Int64() == maybe {
				return either
			}
			return rng(0, hi)(v)
		}
	}
	smpte(0, upto(23, 24))
	smpte(1, rng(0, 59))
	smpte(2, rng(0, 59))
	smpte(3, in64(24, 25, 29, 30))
	smpte(4, rng(0, 29))
	smpte(5, upto(99, 100))
	add(Field{kKeySignature, "accidentals", "", j("KeySignature", `"accidentals":%s,"key-type":1`), rng(-7, 7), vget(0), 600, rest(7, -1, -1, 1)})
	add(Field{kKeySignature, "key-type", "", j("KeySignature", `"accidentals":3,"key-type":%s`), rng(0, 1), vget(1), 600, rest(7, -1, 3)})
	byteField := func(k Kind, name, js string, get func(e *Ev) int64) {
		add(Field{k, name, "", j(k.String(), js), func(v *big.Int) Tri {
			if v.Sign() < 0 || v.BitLen() > 8 {
				return no
			}
			if v.Int64() > 127 {
				return either
			}
			return yes
		}, get, 600, rest(7, -1)})
	}
	dat := func(i int) func(e *Ev) int64 {
		return func(e *Ev) int64 {
			if i < len(e.Data) {
				return int64(e.Data[i])
			}
			return -1
		}
	}
	byteField(kSysExMessage, "data", `"manufacturer":{"id":[67],"region":"Japanese","name":"Yamaha"},"data":[1,%s,2]`, dat(2))
	byteField(kSysExEscape, "data", `"data":[243,%s]`, dat(1))
	byteField(kSequencerSpecific, "data", `"manufacturer":{"id":[67],"region":"Japanese","name":"Yamaha"},"data":[1,%s,2]`, dat(2))
	// the delta of every other kind of event
	delta := func(v *big.Int) Tri {
		switch {
		case v.Sign() < 0 || v.BitLen() > 32:
			return no
		case v.BitLen() > 28:
			return either
		}
		return yes
	}
	done := map[Kind]bool{kNoteOn: true, kNoteOff: true}
	each := func(k Kind, text, json string) {
		if !done[k] {
			done[k] = true
			x := strings.Replace(text, "delta:7", "delta:%s", 1)
			add(Field{k, "delta", x, strings.Replace(json, `"delta":7`, `"delta":%s`, 1), delta, vdelta, 130, func(*Ev) error { return nil }})
		}
	}
	for i, k := range []Kind{kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName} {
		f := []string{"text", "copyright", "name", "name", "lyric", "marker", "cuepoint", "name", "name"}[i]
		each(k, t(fmt.Sprintf("%02X", i+1), k.String(), "abc"), j(k.String(), fmt.Sprintf(`"%s":"abc"`, f)))
	}
	each(kKeySignature, t("59", "KeySignature", "E♭ major"), j("KeySignature", `"accidentals":-3,"key-type":0`))
	man := `"manufacturer":{"id":[67],"region":"Japanese","name":"Yamaha"},"data":[1,2]`
	each(kSequencerSpecific, t("7F", "SequencerSpecificEvent", "Yamaha, 3A 4C"), j(kSequencerSpecific.String(), man))
	each(kSysExMessage, t("F0", "SysExMessage", "Yamaha, 3A 4C"), j(kSysExMessage.String(), man))
	each(kSysExEscape, t("F7", "SysExEscape", "3A 4C"), j(kSysExEscape.String(), `"data":[243,1]`))
	each(kMIDIChannelPrefix, t("20", "MIDIChannelPrefix", "3"), j("MIDIChannelPrefix", `"channel":3`))
	each(kMIDIPort, t("21", "MIDIPort", "3"), j("MIDIPort", `"port":3`))
	each(kSMPTEOffset, t("54", "SMPTEOffset", "13 45 59 30 7 39"), j("SMPTEOffset", `"hour":13,"minute":45,"second":59,"frame-rate":30,"frames":7,"fractional-frames":39`))
	for _, f := range append([]Field{}, fs...) {
		if f.Text != "" && f.JSON != "" && f.Name != "delta" {
			v := "1"
			each(f.Kind, strings.Replace(f.Text, "%s", v, 1), strings.Replace(f.JSON, "%s", v, 1))
		}
	}
	return fs
}

// The values tried for a field: dense from -300, then around every power of 2 and every value that is equal
// to a valid one modulo a power of 2.
func fieldValues(dense int) []string {
	vs := []string{}
	for i := -300; i <= dense; i++ {
		vs = append(vs, strconv.Itoa(i))
	}
	for k := 4; k < 80; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for _, d := range []int64{-1, 0, 1, 2, 4, 5, 7, 8, 24, 25, 30, 60, 64, 100, 127} {
			v := new(big.Int).Add(p, big.NewInt(d))
			vs = append(vs, v.String(), new(big.Int).Neg(v).String())
			vs = append(vs, new(big.Int).Add(v, p).String())
		}
	}
	vs = append(vs, "1"+strings.Repeat("0", 30))
	return vs
}

// Numbers that are spelled differently from how they are listed (leading zeros, a sign): they may be rejected.
func spelled(s string) bool {
	return s != "0" && (s[0] == '+' || strings.HasPrefix(strings.TrimPrefix(s, "-"), "0"))
}

// Other spellings of numbers, and what is not a whole number.
func fieldSpellings() []string {
	vs := []string{}
	for i := 0; i < 130; i++ {
		s := strconv.Itoa(i)
		vs = append(vs, "0"+s, "000"+s, "+"+s, s+".5", s+".0", "0x"+s, s+"x", s+"e1", s+"_0", s+"%", s+",5", s+"♯", s+"-1", "'"+s+"'", "("+s+")", s+"h", "0b"+s, "0o"+s)
	}
	return append(vs, "٣", "３", "1٣", "x", "-", ".", "NaN", "Inf", "true", "null")
}

// Builds a source with the event in a position: alone, after other events, in the second track.
func textSource(line string, pos int) (string, int, int) {
	head := "MThd length:6, format:1, tracks:2, metrical time:480 ppqn\n\n"
	end := "   tick:0 delta:0 2F EndOfTrack\n"
	switch pos {
	case 0:
		return head + "MTrk 0\n" + line + "\n" + end, 0, 0
	case 1:
		return head + "MTrk 0\n  tick:0 delta:3 03 TrackName x\n   tick:3 delta:0 95 NoteOn channel:5 note:C3, velocity:1\n" + line + "\n  delta:0 95 NoteOn channel:5 note:C3, velocity:0\n" + end, 0, 2
	default:
		return head + "MTrk 0\n  tick:0 delta:3 03 TrackName x\n" + end + "\nMTrk 1\n" + line + "\n" + end, 1, 0
	}
}

func jsonSource(event string, pos int) (string, int, int) {
	head := `{"header":{"tag":"MThd","format":1,"tracks":2,"division":480,"PPQN":480},"tracks":[`
	end := `{"event":{"tag":"EndOfTrack","delta":0}}`
	name := `{"event":{"tag":"TrackName","delta":3,"name":"x"}}`
	note := `{"event":{"tag":"NoteOn","delta":0,"channel":5,"note":{"value":48},"velocity":%d}}`
	trk := func(i int, es ...string) string {
		return fmt.Sprintf(`{"tag":"MTrk","track-number":%d,"events":[%s]}`, i, strings.Join(es, ","))
	}
	switch pos {
	case 0:
		return head + trk(0, event, end) + "]}", 0, 0
	case 1:
		return head + trk(0, name, fmt.Sprintf(note, 1), event, fmt.Sprintf(note, 0), end) + "]}", 0, 2
	default:
		return head + trk(0, name, end) + "," + trk(1, event, end) + "]}", 1, 0
	}
}

var vfields = valueFields()

// arg: field index, form (text or json), position; input: the value
func valueOracle(in []byte, arg string) (string, error) {
	var k, pos int
	var form string
	fmt.Sscanf(arg, "%d %s %d", &k, &form, &pos)
	f := vfields[k]
	setMiddleC("")
	var b []byte
	var err error
	var trk, ix int
	var src string
	if form == "text" {
		src, trk, ix = textSource(fmt.Sprintf(f.Text, in), pos)
		b, err = assembleText(src)
	} else {
		src, trk, ix = jsonSource(fmt.Sprintf(f.JSON, in), pos)
		b, err = assembleJSON([]byte(src))
	}
	v, ok := new(big.Int).SetString(string(in), 10)
	valid := no
	if ok {
		valid = f.Valid(v)
	}
	if valid == yes && spelled(string(in)) {
		valid = either
	}
	what := fmt.Sprintf("%v %s %s (%s)", f.Kind, f.Name, in, form)
	if err != nil {
		if valid == yes {
			return "", fmt.Errorf("%s is rejected: %v", what, err)
		}
		return "rejected", nil
	}
	if valid == no {
		return "", fmt.Errorf("%s is accepted: % X", what, b)
	}
	g, err := wellformed(b)
	if err != nil {
		return "", fmt.Errorf("%s: %v", what, err)
	}
	if trk >= len(g.Trk) || ix+1 >= len(g.Trk[trk]) {
		return "", fmt.Errorf("%s: the event is missing", what)
	}
	e := &g.Trk[trk][ix]
	if e.Kind != f.Kind {
		return "", fmt.Errorf("%s: %v", what, e)
	}
	if x := f.Get(e); x != v.Int64() {
		return "", fmt.Errorf("%s becomes %d", what, x)
	}
	if err := f.Rest(e); err != nil {
		return "", fmt.Errorf("%s: %v", what, err)
	}
	return "accepted " + f.Kind.String(), nil
}

// Note names, with both middle C conventions. arg: convention, on|off, position
func nameOracle(in []byte, arg string) (string, error) {
	var conv, on string
	var pos int
	fmt.Sscanf(arg, "%s %s %d", &conv, &on, &pos)
	setMiddleC(ifelse(conv == "C4", "C4", ""))
	defer setMiddleC("")
	base := ifelse(conv == "C4", -2, -1)
	want := -1
	for n := 0; n < 128; n++ {
		if noteName(n, false, base) == string(in) || noteName(n, true, base) == string(in) {
			want = n
		}
	}
	src, trk, ix := textSource(fmt.Sprintf("  delta:7 95 Note%s channel:5 note:%s, velocity:72", on, in), pos)
	b, err := assembleText(src)
	if err != nil {
		if want >= 0 {
			return "", fmt.Errorf("note %s is rejected: %v", in, err)
		}
		return "rejected", nil
	}
	g, err := wellformed(b)
	if err != nil {
		return "", err
	}
	e := &g.Trk[trk][ix]
	if want < 0 {
		// enharmonic names may be accepted with the pitch class they denote (their octave is unspecified)
		l, r := string(in[:1]), []rune(string(in[1:]))
		pc := map[string]int{"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
		p, ok := pc[l]
		acc := 0
		for len(r) > 0 && (r[0] == '♯' || r[0] == '♭') {
			acc += ifelse(r[0] == '♯', 1, -1)
			r = r[1:]
		}
		oct, err := strconv.Atoi(string(r))
		n := (oct-base)*12 + p + acc
		if !ok || err != nil || (n+24)%12 != int(e.V[0])%12 {
			return "", fmt.Errorf("note %s is accepted as %d", in, e.V[0])
		}
		return "enharmonic", nil
	}
	if int(e.V[0]) != want || e.Ch != 5 || e.V[1] != 72 || e.Delta != 7 {
		return "", fmt.Errorf("note %s: expected %d, got %v", in, want, e)
	}
	return "accepted", nil
}

// Key names in text
func keyOracle(in []byte, arg string) (string, error) {
	src, trk, ix := textSource("  delta:7 59 KeySignature "+string(in), 0)
	b, err := assembleText(src)
	acc, typ, ok := keyOf(string(in))
	if err != nil {
		if ok {
			return "", fmt.Errorf("key %q is rejected: %v", in, err)
		}
		return "rejected", nil
	}
	if !ok {
		return "", fmt.Errorf("key %q is accepted", in)
	}
	g, err := wellformed(b)
	if err != nil {
		return "", err
	}
	e := &g.Trk[trk][ix]
	if e.Kind != kKeySignature || int(e.V[0]) != acc || int(e.V[1]) != typ {
		return "", fmt.Errorf("key %q: %v", in, e)
	}
	return "accepted", nil
}

func keyOf(s string) (int, int, bool) {
	for a := -7; a <= 7; a++ {
		for t := 0; t < 2; t++ {
			if keyName(a, t) == s {
				return a, t, true
			}
		}
	}
	return 0, 0, false
}

// Manufacturer names in text
func manufacturerNameOracle(in []byte, arg string) (string, error) {
	line := fmt.Sprintf("  delta:7 F0 SysExMessage %s, 12 34", in)
	if arg == "sequencer" {
		line = fmt.Sprintf("  delta:7 7F SequencerSpecificEvent %s, 12 34", in)
	}
	known := false
	for _, m := range refManufacturers {
		known = known || m[1] == string(in)
	}
	src, trk, ix := textSource(line, 1)
	b, err := assembleText(src)
	if err != nil {
		if known {
			return "", fmt.Errorf("manufacturer %q is rejected: %v", in, err)
		}
		return "rejected", nil
	}
	g, err := wellformed(b)
	if err != nil {
		return "", err
	}
	e := &g.Trk[trk][ix]
	data := e.Data
	for id, m := range refManufacturers {
		if x, err := hex.DecodeString(id); err == nil && bytes.Equal(data, append(x, 0x12, 0x34)) {
			// other ways to write the name are up to the assembler
			if m[1] == string(in) || !known && strings.EqualFold(strings.TrimSpace(string(in)), m[1]) {
				return "accepted", nil
			}
		}
	}
	return "", fmt.Errorf("manufacturer %q becomes % X", in, data)
}

// A list of bytes in text with one that is not a byte. arg: kind of event, number of bytes, position, the token
func hexListOracle(in []byte, arg string) (string, error) {
	var kind, n, k int
	fmt.Sscan(arg, &kind, &n, &k)
	toks := []string{}
	for i := 0; i < n; i++ {
		toks = append(toks, fmt.Sprintf("%02X", i*7+16))
	}
	toks[k] = string(in)
	line := fmt.Sprintf("  delta:7 %s %s", []string{"F0 SysExMessage Yamaha,", "F7 SysExEscape", "7F SequencerSpecificEvent Yamaha,"}[kind], strings.Join(toks, " "))
	src, trk, ix := textSource(line, 1)
	b, err := assembleText(src)
	if err != nil {
		return "rejected", nil
	}
	g, err := wellformed(b)
	if err != nil {
		return "", err
	}
	if v, err := strconv.ParseUint(string(in), 16, 8); err == nil { // one digit
		toks[k] = fmt.Sprintf("%02X", v)
		want, _ := hex.DecodeString(strings.Join(toks, ""))
		if bytes.HasSuffix(g.Trk[trk][ix].Data, want) || bytes.HasSuffix(g.Trk[trk][ix].Data, append(want, 0xf7)) {
			return "accepted", nil
		}
	}
	return "", fmt.Errorf("%q is assembled to % X", line, clip(g.Trk[trk][ix].Data))
}

// Header fields. arg: format or ppqn, text or json
func headerValueOracle(in []byte, arg string) (string, error) {
	format, ppqn := "1", "480"
	valid := no
	v, ok := new(big.Int).SetString(string(in), 10)
	if strings.HasPrefix(arg, "format") {
		format = string(in)
	} else {
		ppqn = string(in)
	}
	if !ok {
		// not a number
	} else if strings.HasPrefix(arg, "format") {
		valid = rng(0, 2)(v)
	} else {
		valid = rng(1, 32767)(v)
		if v.Sign() == 0 || v.IsInt64() && v.Int64() < 65536 && strings.Contains(" e8 e7 e3 e2 ", fmt.Sprintf(" %x ", v.Int64()>>8)) {
			valid = either
		}
	}
	if ok && valid == yes && spelled(string(in)) {
		valid = either
	}
	var b []byte
	var err error
	if strings.HasSuffix(arg, "text") {
		b, err = assembleText(fmt.Sprintf("MThd length:6, format:%s, tracks:1, metrical time:%s ppqn\nMTrk 0\n  delta:0 2F EndOfTrack\n", format, ppqn))
	} else {
		b, err = assembleJSON([]byte(fmt.Sprintf(`{"header":{"tag":"MThd","format":%s,"tracks":1,"PPQN":%s},"tracks":[{"tag":"MTrk","events":[{"event":{"tag":"EndOfTrack","delta":0}}]}]}`, format, ppqn)))
	}
	if err != nil {
		if valid == yes {
			return "", fmt.Errorf("%s %s is rejected: %v", arg, in, err)
		}
		return "rejected", nil
	}
	if valid == no {
		return "", fmt.Errorf("%s %s is accepted: % X", arg, in, clip(b))
	}
	g, err := wellformed(b)
	if err != nil {
		return "", err
	}
	number := func(s string) string {
		v, _ := new(big.Int).SetString(s, 10)
		return v.String()
	}
	if fmt.Sprint(g.Format) != number(format) || fmt.Sprint(g.Division) != number(ppqn) || g.Tracks != 1 {
		return "", fmt.Errorf("%s %s: %v", arg, in, clip(b))
	}
	return "accepted", nil
}

func init() {
	oracle("value", valueOracle)
	oracle("note-name", nameOracle)
	oracle("key-name", keyOracle)
	oracle("manufacturer-name", manufacturerNameOracle)
	oracle("header-value", headerValueOracle)
	oracle("hex-list", hexListOracle)
	check(&Check{ID: "P18", Level: "exploration",
		Rule:  "assemble one event per value of every field (densely over and beyond its range, around every power of two and modulo them), from text and JSON and in three positions, and decode every data byte value of every binary event: out of range values have to be rejected, all others have to appear unchanged in the assembled file",
		Assum: []string{"deltas from 2^28 to 2^32-1, SMPTE hour 24 and fraction 100, ppqn 0, a ppqn that is a valid SMPTE division and SysEx data over 127 are unspecified: if accepted they have to be unchanged"},
		Run:   runP18})
}

func runP18(r *R) {
	for k, f := range vfields {
		for _, form := range []string{"text", "json"} {
			if form == "text" && f.Text == "" {
				continue
			}
			dense := f.Dense
			vs := fieldValues(dense)
			if form == "json" {
				vs = append(vs, "1.5", "0.5", "1e9", "127.0000001")
			} else {
				vs = append(vs, fieldSpellings()...)
			}
			r.Par(fmt.Sprintf("%v %s %s", f.Kind, f.Name, form), len(vs)*3, func(w *W, i int) bool {
				if i/3 > 1500 && i/3 < dense-3000 && !r.Thorough() && i/3%7 != 0 {
					return true
				}
				return w.Case("value", []byte(vs[i/3]), fmt.Sprintf("%d %s %d", k, form, i%3))
			})
		}
	}
	if r.Thorough() {
		k := 0
		for i, f := range vfields {
			if f.Kind == kTempo {
				k = i
			}
		}
		r.Par("all tempos from 0 to 2^24+65536, every 13th", (1<<24+65536)/13, func(w *W, i int) bool {
			return w.Case("value", []byte(strconv.Itoa(i*13)), fmt.Sprintf("%d %s 0", k, ifelse(i%2 == 0, "text", "json")))
		})
	}
	names := []string{}
	for _, l := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "Z", "", "a", "CC", "1"} {
		for _, acc := range []string{"", "♯", "♭", "♯♯", "♭♭", "#", "b", "♮", "x"} {
			for o := -6; o < 16; o++ {
				names = append(names, fmt.Sprintf("%s%s%d", l, acc, o))
			}
			names = append(names, l+acc, l+acc+"-", l+acc+"100", l+acc+"--1")
		}
	}
	r.Seq("note names", len(names)*2*2*3, func(w *W, i int) bool {
		return w.Case("note-name", []byte(names[i/12]), fmt.Sprintf("%s %s %d", []string{"C3", "C4"}[i%2], []string{"On", "Off"}[i/2%2], i/4%3))
	})
	keys := []string{""}
	for _, l := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "K", ""} {
		for _, acc := range []string{"", "♯", "♭", "♯♯", "♭♭", "#", "x", "♮"} {
			for _, ty := range []string{" major", " minor", "", "major", " dorian", " x"} {
				keys = append(keys, l+acc+ty)
			}
		}
	}
	r.Par("key names", len(keys), func(w *W, i int) bool { return w.Case("key-name", []byte(keys[i]), "") })
	mans := []string{"", " ", "?", "<unknown>", "43", "00", "Yamaha Korg", "Special Purpose", "European", "Yamaha\t", "ヤマハ"}
	for _, m := range refManufacturers {
		for i := range m[1] {
			mans = append(mans, m[1][:i], m[1][i:])
		}
		mans = append(mans, m[1], m[1]+"x", m[1]+"?", "x"+m[1], m[1]+m[1], m[0]+" "+m[1], m[0])
	}
	sort.Strings(mans)
	r.Par("manufacturer names", len(mans)*2, func(w *W, i int) bool {
		return w.Case("manufacturer-name", []byte(mans[i/2]), []string{"sysex", "sequencer"}[i%2])
	})
	bad := []string{"5", "0", "G", "GG", "0x5", "0x55", "-1", "+5", "5.", "5h", "O5", "1G", "\u0665\u0665", ":", "..", "5,"}
	r.Par("lists of bytes", 3*24*24*len(bad), func(w *W, i int) bool {
		kind, t, n, k := i%3, i/3%len(bad), i/3/len(bad)%24+1, i/3/len(bad)/24
		return k >= n || w.Case("hex-list", []byte(bad[t]), fmt.Sprint(kind, n, k))
	})
	hv := append(fieldValues(66000), fieldSpellings()...)
	r.Par("header values", len(hv)*4, func(w *W, i int) bool {
		if i%4 == 0 && strings.Contains(hv[i/4], ",") { // the separator of the fields
			return true
		}
		return w.Case("header-value", []byte(hv[i/4]), []string{"format text", "format json", "ppqn text", "ppqn json"}[i%4])
	})
	// binary: every data byte of every event that has a range
	r.Par("binary, channel events", 7*16*256*3, func(w *W, i int) bool {
		st, v, p := byte(0x80+i%7*16+i/7%16), byte(i/112%256), i/112/256
		d := [][]byte{{v, 0}, {0, v}, {v, v}}[p]
		return w.Case("body", cat([]byte{0, st}, d, eot), "")
	})
	r.Par("binary, SMPTE offset", 5*256*32, func(w *W, i int) bool {
		d := []byte{13 | byte(i/1280%4)<<5, 45, 59, 7, 39}
		d[i%5] = byte(i / 5)
		if i/1280/4 > 0 {
			d[(i+i/1280/4)%5] ^= 1 << (i / 1280 % 8)
		}
		return w.Case("body", cat(meta(7, 0x54, d), eot), "")
	})
	r.Par("binary, time signature", 256*256, func(w *W, i int) bool {
		return w.Case("body", cat(meta(7, 0x58, []byte{byte(i >> 8), byte(i), 24, 8}), eot), "")
	})
	r.Par("binary, key signature", 256*256, func(w *W, i int) bool {
		return w.Case("body", cat(meta(7, 0x59, []byte{byte(i >> 8), byte(i)}), eot), "")
	})
	r.Par("binary, channel prefix, port and lengths", 128*256, func(w *W, i int) bool {
		if i < 512 {
			return w.Case("body", cat(meta(7, byte(0x20+i/256), []byte{byte(i)}), eot), "")
		}
		// every meta type with every length from 0 to 8
		return i%256 > 8 || w.Case("body", cat(meta(7, byte(i/256), fill(i%256)), eot), "")
	})
	r.Sample("NoteOn velocity 128, 256, 328, 4294967368: rejected in text and JSON; 127: accepted and encoded as 7F")
}
