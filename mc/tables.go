package main

import "fmt"

// Tables of the reference: manufacturers and controllers as documented by the MIDI association.

var refManufacturers = map[string][2]string{
	"7D":     {"Special Purpose", "Non-Commercial"},
	"7E":     {"Special Purpose", "Non-RealTime Extensions"},
	"7F":     {"Special Purpose", "RealTime Extensions"},
	"01":     {"American", "Sequential Circuits"},
	"04":     {"American", "Moog"},
	"05":     {"American", "Passport Designs"},
	"06":     {"American", "Lexicon"},
	"07":     {"American", "Kurzweil"},
	"08":     {"American", "Fender"},
	"0A":     {"American", "AKG Acoustics"},
	"0F":     {"American", "Ensoniq"},
	"10":     {"American", "Oberheim"},
	"11":     {"American", "Apple"},
	"13":     {"American", "Digidesign"},
	"18":     {"American", "Emu"},
	"1A":     {"American", "ART"},
	"1C":     {"American", "Eventide"},
	"22":     {"European", "Synthaxe"},
	"24":     {"European", "Hohner"},
	"29":     {"European", "PPG"},
	"2B":     {"European", "SSL"},
	"2D":     {"European", "Hinton Instruments"},
	"2F":     {"European", "Elka / General Music"},
	"30":     {"European", "Dynacord"},
	"33":     {"European", "Clavia (Nord)"},
	"36":     {"European", "Cheetah"},
	"3E":     {"European", "Waldorf Electronics Gmbh"},
	"40":     {"Japanese", "Kawai"},
	"41":     {"Japanese", "Roland"},
	"42":     {"Japanese", "Korg"},
	"43":     {"Japanese", "Yamaha"},
	"44":     {"Japanese", "Casio"},
	"47":     {"Japanese", "Akai"},
	"48":     {"Japanese", "Japan Victor (JVC)"},
	"4C":     {"Japanese", "Sony"},
	"4E":     {"Japanese", "Teac Corporation"},
	"51":     {"Japanese", "Fostex"},
	"52":     {"Japanese", "Zoom"},
	"000007": {"American", "Digital Music Corporation"},
	"000009": {"American", "New England Digital"},
	"00000E": {"American", "Alesis"},
	"000015": {"American", "KAT"},
	"000016": {"American", "Opcode"},
	"00001A": {"American", "Allen & Heath Brenell"},
	"00001B": {"American", "Peavey Electronics"},
	"00001C": {"American", "360 Systems"},
	"00001F": {"American", "Zeta Systems"},
	"000020": {"American", "Axxes"},
	"00003B": {"American", "Mark Of The Unicorn (MOTU)"},
	"00004D": {"American", "Studio Electronics"},
	"000050": {"American", "MIDI Solutions Inc"},
	"000137": {"American", "Roger Linn Design"},
	"000172": {"American", "Kilpatrick Audio"},
	"000173": {"American", "iConnectivity"},
	"000214": {"American", "Intellijel Designs Inc"},
	"002011": {"European", "Forefront Technology"},
	"002013": {"European", "Kenton Electronics"},
	"00201F": {"European", "TC Electronic"},
	"002020": {"European", "Doepfer"},
	"002027": {"European", "Acorn Computer"},
	"002029": {"European", "Focusrite / Novation"},
	"002032": {"European", "Behringer"},
	"002033": {"European", "Access Music Electronics"},
	"00203C": {"European", "Elektron"},
	"00204D": {"European", "Vermona"},
	"002052": {"European", "Analogue Systems"},
	"002069": {"European", "Elby Designs"},
	"00206B": {"European", "Arturia"},
	"002076": {"European", "Teenage Engineering"},
	"002102": {"European", "Mutable Instruments"},
	"002109": {"European", "Native Instruments"},
	"002110": {"European", "ROLI Ltd"},
	"00211A": {"European", "IK Multimedia"},
	"00211C": {"European", "Modor Music"},
	"00211D": {"European", "Ableton"},
	"002127": {"European", "Expert Sleepers"},
}

var refControllers = map[byte]string{
	0:   "Bank Select (MSB)",
	1:   "Modulation Wheel (MSB)",
	2:   "Breath Controller (MSB)",
	4:   "Foot Controller (MSB)",
	5:   "Portamento Time (MSB)",
	6:   "Data Entry (MSB)",
	7:   "Channel Volume (MSB)",
	8:   "Balance (MSB)",
	10:  "Pan (MSB)",
	11:  "Expression Controller (MSB)",
	12:  "Effect Control 1 (MSB)",
	13:  "Effect Control 2 (MSB)",
	16:  "General Purpose Controller 1 (MSB)",
	17:  "General Purpose Controller 2 (MSB)",
	18:  "General Purpose Controller 3 (MSB)",
	19:  "General Purpose Controller 4 (MSB)",
	32:  "Bank Select (LSB)",
	33:  "Modulation Wheel (LSB)",
	34:  "Breath Controller (LSB)",
	36:  "Foot Controller (LSB)",
	37:  "Portamento Time (LSB)",
	38:  "Data Entry (LSB)",
	39:  "Channel Volume (LSB)",
	40:  "Balance (LSB)",
	42:  "Pan (LSB)",
	43:  "Expression Controller (LSB)",
	44:  "Effect Control 1 (LSB)",
	45:  "Effect Control 2 (LSB)",
	48:  "General Purpose Controller 1 (LSB)",
	49:  "General Purpose Controller 2 (LSB)",
	50:  "General Purpose Controller 3 (LSB)",
	51:  "General Purpose Controller 4 (LSB)",
	64:  "Sustain On/Off",
	65:  "Portamento On/Off",
	66:  "Sostenuto On/Off",
	67:  "Soft Pedal On/Off",
	68:  "Legato On/Off",
	69:  "Hold 2 On/Off",
	70:  "Sound Controller 1  (TG: Sound Variation;  FX: Exciter On/Off)",
	71:  "Sound Controller 2  (TG: Harmonic Content; FX: Compressor On/Off)",
	72:  "Sound Controller 3  (TG: Release Time;     FX: Distortion On/Off)",
	73:  "Sound Controller 4  (TG: Attack Time;      FX: EQ On/Off)",
	74:  "Sound Controller 5  (TG: Brightness;       FX: Expander On/Off)",
	75:  "Sound Controller 6  (TG: Decay Time;       FX: Reverb On/Off)",
	76:  "Sound Controller 7  (TG: Vibrato Rate;     FX: Delay On/Off)",
	77:  "Sound Controller 8  (TG: Vibrato Depth;    FX: Pitch Transpose On/Off)",
	78:  "Sound Controller 9  (TG: Vibrato Delay;    FX: Flange/Chorus On/Off)",
	79:  "Sound Controller 10 (TG: Undefined;        FX: Special Effects On/Off)",
	80:  "General Purpose Controller 5",
	81:  "General Purpose Controller 6",
	82:  "General Purpose Controller 7",
	83:  "General Purpose Controller 8",
	84:  "Portamento Control",
	88:  "High Resolution Velocity Prefix",
	91:  "Effects 1 Depth (Reverb Send Level)",
	92:  "Effects 2 Depth (Tremelo Depth)",
	93:  "Effects 3 Depth (Chorus Send Level)",
	94:  "Effects 4 Depth (Celeste Depth)",
	95:  "Effects 5 Depth (Phaser Depth)",
	96:  "Data Increment",
	97:  "Data Decrement",
	98:  "Non-Registered Parameter Number (LSB)",
	99:  "Non-Registered Parameter Number (MSB)",
	100: "Registered Parameter Number (LSB)",
	101: "Registered Parameter Number (MSB)",
	120: "All Sound Off",
	121: "Reset All Controllers",
	122: "Local Control On/Off",
	123: "All Notes Off",
	124: "Omni Mode Off",
	125: "Omni Mode On ",
	126: "Mono Mode On",
	127: "Poly Mode On",
}

func refManufacturer(id []byte) string {
	if m, ok := refManufacturers[fmt.Sprintf("%X", id)]; ok {
		return m[0] + "|" + m[1]
	}
	return "<unknown>|<unknown>"
}

func refController(id byte) string {
	if s, ok := refControllers[id]; ok {
		return s
	}
	return "<unknown>"
}
