#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ev=["midi/events/meta","midi/events/midi","midi/events/sysex"]
p("P01","Decoding a MIDI file reports exactly the events the file contains",
 "For every well-formed Standard MIDI File, decoding yields the tracks and events of the file in file order and nothing else: every event has the kind, raw bytes, delta time, absolute tick (the sum of the deltas), channel and field values that its bytes encode. Every value in the domain of every field of every supported event kind is reported unchanged, whatever events precede it and whichever track it is in.",
 ["inputs"],"every well-formed file; explored: the full data domain of each event kind, every sequence of up to 3 (quick) or 4 (thorough) events over an alphabet with every kind, several tracks and foreign chunks",
 "The tests decode a handful of fixed byte strings, one or two values per event kind, and one reference file; a wrong mask, shift, sign or table entry for any other value passes them.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/MThd.go"]+ev,
 [("chunk reader","encoding/midi/decoder.go"),("event parser","midi/MTrk.go:parseEvent"),("per-event unmarshalling","midi/events/*/")],
 ["the decoded SMF: tracks, events, ticks, deltas, fields, bytes"])
p("P02","Running status and multi-packet SysEx are tracked across every event sequence",
 "A channel event written without its status byte is decoded with the status of the channel event immediately before it in the same track; after a meta or SysEx event, or at the start of a track, such an event is rejected. A SysEx message that does not end in F7 stays open until a continuation packet ends in F7: F7 packets are continuations exactly while a message is open and escapes otherwise, and a new F0 message while one is open is rejected.",
 ["histories","inputs"],"every sequence of explicit-status, running-status, meta and SysEx events; explored: all reachable decoder states (running status x SysEx open) and all event sequences up to length 4 (quick) / 5 (thorough)",
 "The tests contain one running-status track and one three-packet SysEx; which events set, keep or clear the decoder state is a property of all histories.",
 ["midi/MTrk.go","midi/context/context.go","midi/events/sysex","midi/events/midi/midievent.go"],
 [("running status and Casio flag","midi/MTrk.go:parseEvent"),("SysEx dispatch","midi/events/sysex/sysex.go")],
 ["decode result: events or error"],
 [("running status","status byte for the next status-less event, 0 for none","midi/context/context.go"),("open SysEx","F0 message without F7 seen","midi/context/context.go")])
p("P03","The MIDI header is decoded, listed and re-encoded faithfully",
 "For every format 0, 1 or 2, every track count and every time division, decoding reports exactly the header's format, track count and division, with metrical divisions reported as that many ticks per quarter note and SMPTE divisions as the encoded frame rate (24, 25, 29 drop-frame or 30) and ticks per frame. Re-encoding gives back the same header bytes, the listing and the JSON export show the same values, a header made from the same format, track count and division has the same fields, and a header with any other format, length or frame rate is rejected.",
 ["inputs","configurations"],"all 65536 time divisions x formats x track counts 0..4, all 65536 format values, all header lengths near 6",
 "The tests decode three headers; 65536 divisions times formats need enumeration.",
 ["midi/MThd.go","encoding/midi/decoder.go","encoding/midi/encoder.go","ops/disassemble/template","ops/export/export.go"],
 [("MThd unmarshal/marshal","midi/MThd.go"),("listing template","ops/disassemble/template")],
 ["decoded header fields","encoded bytes","listing line","JSON header"])
p("P04","Encoding a decoded MIDI file loses nothing",
 "For every MIDI file that decodes, encoding the decoded file gives a file that decodes to the same header and, track by track, the same events with the same deltas and field values, and encoding that file again gives identical bytes. In particular the running-status compression and the length fields the encoder chooses never change the meaning of the file.",
 ["inputs","histories"],"every decodable file; explored: full data domain per event kind, every event-kind sequence up to length 3 (quick) / 4 (thorough), event lengths across every VLQ size boundary, multi-track files",
 "Encoder tests cover one file; whether a status byte may be dropped depends on the preceding event, so all event pairs and triples matter.",
 ["encoding/midi/encoder.go","encoding/midi/decoder.go","midi/MTrk.go"]+ev,
 [("running status compression, length computation","encoding/midi/encoder.go:EncodeMTrk"),("MarshalBinary of every event","midi/events/*/")],
 ["encoded bytes","decode of the encoded bytes"])
p("P05","Disassembling to text and assembling it again gives the same MIDI content",
 "For every decodable MIDI file with a metrical time division, assembling the text listing produced by the disassembler (with the same middle C convention) either reports an error or gives a file with the same format, division, tracks and events, with the same deltas and field values. It never reports an error when every text field is a single printable line without leading or trailing blanks, every manufacturer ID is a known one and every SysEx message is terminated.",
 ["inputs","configurations"],"every such file, both middle C conventions; explored: full data domain per event kind, every event-kind sequence up to length 3, text fields that contain event names, chunk names, field labels, comments and punctuation",
 "Tests assemble one reference listing; each event has its own regular expression whose failure modes depend on values and on the text of neighbouring fields.",
 ["ops/disassemble/template","ops/disassemble/disassemble.go","ops/assemble/text.go","ops/assemble/assemble.go","midi/events/text.go"]+ev,
 [("listing template","ops/disassemble/template"),("text assembler","ops/assemble/text.go"),("UnmarshalText of every event","midi/events/*/")],
 ["decode(assemble(disassemble(file)))"])
p("P06","Exporting to JSON and assembling it again gives the same MIDI content",
 "For every decodable MIDI file whose text fields are valid UTF-8 and whose SysEx messages are terminated, assembling the exported JSON succeeds and gives a file with the same format, time division (metrical or SMPTE), tracks and events, with the same deltas and field values.",
 ["inputs"],"every such file; explored: full data domain per event kind, every event-kind sequence up to length 3, every division, text with JSON metacharacters, control characters and multi-byte runes",
 "Tests assemble one JSON file; each event kind has its own hand-written JSON encoder and decoder.",
 ["ops/export/export.go","ops/assemble/json.go","ops/assemble/assemble.go","midi/events/json.go"]+ev,
 [("JSON export","ops/export/export.go"),("JSON assembler","ops/assemble/json.go")],
 ["decode(assemble(export(file)))"])
p("P07","No input file can crash, hang or exhaust the memory of any operation",
 "For every byte string given as a MIDI file, decoding either succeeds or returns an error, without a crash, without failing to return, and with memory proportional to the size of the input rather than to the lengths it declares. If decoding succeeds then validation, disassembly, JSON export, TSV export, note and click extraction, transposition and re-encoding also complete with a result or an error.",
 ["inputs"],"every byte string; explored: all track bodies up to 3 bytes, all bodies 00 ss xx yy (thorough), every single-byte substitution, deletion and insertion in a corpus covering every event kind, all header corruptions, declared lengths up to 2^32-1",
 "Tests feed well-formed files; malformed input is unbounded and each event parser has its own indexing.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/events/event.go","ops/notes/notes.go","ops/click/click.go","ops/disassemble/disassemble.go"]+ev,
 [("length guards","midi/events/*/, encoding/midi/decoder.go")],
 ["return, error, panic, allocation"])
p("P08","Truncated, inconsistent or unreadable input is rejected",
 "A MIDI file cut off at any point before its end (unless what is left is itself a complete file), with a chunk or event length that runs past the data, with a track count that differs from the number of track chunks, or whose reader fails part way, is reported as an error and never decoded to partial content. How the reader divides the bytes over read calls never changes the result.",
 ["fault_sequences","inputs"],"every prefix of every corpus file, every read error position and kind, every partition into reads of 1..n bytes, every +/- change of each length and count field",
 "The tests never truncate a file or inject a read error.",
 ["encoding/midi/decoder.go","midi/MTrk.go","midi/reader.go"],
 [("chunk reader","encoding/midi/decoder.go:next"),("event reader","midi/MTrk.go:parse")],
 ["decode error / result"])
p("P09","Variable length quantities are encoded minimally and decoded exactly",
 "For every value from 0 to 268435455 the encoder writes the delta time as the shortest variable length quantity, and decoding those bytes gives the same value and consumes exactly those bytes. The same holds for the length fields of text, sequencer specific and SysEx events, and longer non-minimal forms of up to four bytes decode to the value they denote.",
 ["inputs"],"all 2^28 values; all event data lengths around every boundary",
 "Tests check a few dozen values.",
 ["midi/lib/delta.go","midi/lib/types.go","midi/events/event.go","midi/events/meta/metaevent.go","midi/events/sysex"],
 [("delta codec","midi/lib/delta.go"),("VLQ reader","midi/events/event.go:VLQ,VLF")],
 ["encoded bytes","decoded values"])
p("P10","Transposing moves every note and key by the interval and changes nothing else",
 "Transposing a decoded file by n semitones gives a file in which every note-on and note-off is moved by n (limited to 0..127), every key signature is the key n semitones away with the same major/minor type, and every other event, every delta, channel and velocity, the track structure and the header are unchanged. Transposing by 0 semitones or by n and then -n (where no note reaches a limit) restores the notes.",
 ["inputs","configurations"],"every file and interval; explored: all 128 notes x 16 channels x intervals -130..130, all 30 keys x intervals -36..36, every event-kind sequence up to length 3",
 "Tests transpose one file by a few intervals.",
 ["ops/transpose/transpose.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","midi/events/meta/key_signature.go","midi/lib/scales.go"],
 [("Transpose of notes and keys","midi/events/*/"),("scale tables","midi/lib/scales.go")],
 ["decode of the transposed bytes"])
p("P11","The note list pairs every note-on with its note-off",
 "For every note track (the track of a format 0 file, every track after the first otherwise) the note list has exactly one entry for each sounding note: a note-on with non-zero velocity on a (channel, key) that is not sounding starts a note, and it ends at the next note-off or zero-velocity note-on for the same channel and key, or at the end of track event. The entry has the start's channel, key and velocity and the ticks' times; further note-ons for a sounding key and unmatched note-offs add nothing.",
 ["histories","inputs"],"every sequence of note events over channels and keys; explored: all sequences up to length 5 (quick) / 6 (thorough) over 2 channels x 2 keys x {on, on with velocity 0, off} and simultaneous events, formats 0 and 1, several tracks",
 "Tests extract the notes of one file; pairing depends on the whole history of a key.",
 ["ops/notes/notes.go"],[("pending notes","ops/notes/notes.go:buildNoteList")],["text and JSON note list"],
 [("pending","notes that are sounding, per channel and key","ops/notes/notes.go:buildNoteList")])
p("P12","Note times follow the tempo map exactly",
 "Start, end and duration of every note in the note list equal, to within a millisecond, the time obtained by integrating over the ticks with the tempo in effect at each tick: 120 beats per minute until the first tempo event of the tempo track, then the most recent tempo event at or before the tick, wherever tempo changes fall relative to the notes. A file without a metrical division is reported as an error.",
 ["histories","inputs"],"every tempo map, division and note placement; explored: all interleavings of up to 3 tempo changes and 2 notes over small tick grids x tempos x divisions, all 32767 divisions, tempo extremes",
 "Tests use one tempo at tick 0; tempo changes inside a note are a property of all interleavings.",
 ["ops/notes/notes.go"],[("time stamps","ops/notes/notes.go:buildTrackEvents")],["start/end/duration in the note list"])
p("P13","Note and key names follow the key signature and the middle C convention",
 "Every note is named by its pitch class and octave, with sharps until a key signature with flats and with flats from then until a key signature without, and note 60 is C4 by default and C3 with the other convention; a note-off carries the name its note-on was given. Every key signature from 7 flats to 7 sharps, major or minor, is reported with its conventional name and every other one is rejected.",
 ["histories","configurations","inputs"],"all 128 notes x 16 channels x key signature histories x both conventions; all 65536 key signature byte pairs",
 "Tests check a few notes in one key.",
 ["midi/context/context.go","midi/MTrk.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go","midi/events/meta/key_signature.go","midi/lib/scales.go","midi/lib/middlec.go"],
 [("scale context and note registry","midi/context/context.go")],["note names and key names in the decoded file"],
 [("scale","sharps or flats","midi/context/context.go"),("notes","name given to each sounding note","midi/context/context.go")])
p("P14","Validation reports every structural problem and nothing else",
 "Validation reports a problem exactly for: a format 0 file with other than one track; an event in track 0 of a format 1 file other than tempo, time signature, track name, SMPTE offset, copyright or end of track; a tempo or SMPTE offset event in a later track of a format 1 file; a track without an end of track event or with one that is not last; and a bank select MSB not followed immediately by its LSB on the same channel, or an LSB without its MSB. Each problem names its track and a file without such problems gets no report.",
 ["inputs","histories"],"every decoded file; explored: all event-kind sequences up to length 3 (all kinds) and 4 (structure alphabet) x formats 0,1,2 x 0..3 tracks x track position",
 "Tests validate five files.",
 ["midi/smf.go","midi/events/event.go"],[("Validate","midi/smf.go")],["list of validation errors"])
p("P15","The text listing shows every event completely and in order",
 "The disassembly of every decodable file has one line for the header, one for each track and one for each event, in file order, and each event line shows the event's bytes (abbreviated if long), absolute tick, delta, status or type byte, kind and every field value. The split listing of the header and of each track shows the same lines.",
 ["inputs"],"every decodable file with single-line text; explored: full data domain per event kind, every event-kind sequence up to length 2/3, event sizes across the abbreviation limit, ticks of 1..12 digits",
 "Tests compare the listing of one file.",
 ["ops/disassemble/template","ops/disassemble/disassemble.go","commands/disassemble.go"],[("template","ops/disassemble/template")],["listing text, whitespace-insensitive"])
p("P16","TSV export has one row per event position with every field in its column",
 "For every decodable file the TSV export has one group of seven columns per track and row n of a group holds the n-th event of that track: tick, delta, kind, channel, note, velocity and details, with empty cells after the last event of a shorter track. Fields that contain the delimiter, quotes or line breaks are quoted so that reading the table back gives the same values, for every delimiter, and the fixed-width form shows the same cells.",
 ["inputs","configurations"],"every decodable file and delimiter; explored: full data domain per event kind, 0..4 tracks of unequal length, delimiters TAB , ; |, text with delimiters, quotes and line breaks",
 "There are no end-to-end TSV tests.",
 ["commands/tsv.go"],[("export, fields, writeTSV, writeTable","commands/tsv.go")],["the written file, parsed as delimited text"])
p("P17","Assembling arbitrary text or JSON yields a well-formed MIDI file or an error",
 "For every text or JSON input the assembler returns either an error or a well-formed MIDI file that decodes and has exactly one track per source track; it never crashes, never fails to return and never leaves background work behind. A source event that is not understood is reported, not dropped.",
 ["inputs"],"every input; explored: every line deletion, duplication and swap and every single-character and single-token edit of listings covering every event kind, every JSON leaf and node replaced by each of a set of values",
 "Tests assemble correct input plus a few missing-field errors.",
 ["ops/assemble/text.go","ops/assemble/json.go","ops/assemble/assemble.go","midi/events/text.go","midi/events/json.go"]+ev,
 [("assemblers","ops/assemble/")],["assembled bytes or error","goroutines left"])
p("P18","Values that a MIDI file cannot represent are rejected, never altered",
 "Assembling an event from text or JSON with a field outside its range (channel over 15, data value over 127, bend over 16383, tempo over 24 bits, unknown key, denominator that is not a power of two, note outside 0..127, time code or port out of range, byte over 255), a number followed by other characters, or a name that is not one of the known manufacturers reports an error, and decoding a binary event with such a value reports an error. Every value inside the range is accepted and appears unchanged in the assembled file.",
 ["inputs"],"every field of every event kind x every value 0..300, boundaries of 14, 16, 24 and 32 bits and negative numbers, in text, JSON and binary",
 "Tests cover a few fields with one bad value each.",
 ["midi/events/midi","midi/events/meta","midi/lib","midi/MTrk.go"],[("range checks","midi/events/*/")],["error or decoded value of the assembled file"])
p("P19","Results depend only on the file: no history, track or order dependence",
 "Decoding, listing, exporting, note extraction, TSV export, transposing, assembling and encoding give the same result for the same input every time, whatever was processed before in the same process or at the same time in other goroutines, and a result once returned does not change when another file is processed. A track decodes to the same events whatever other tracks and foreign chunks surround it, and the read-only operations leave the decoded file unchanged.",
 ["histories","schedules"],"all operation sequences up to length 3 over the operations and a corpus; all track permutations and placements; concurrent pairs of operations",
 "Tests run each operation once on a fresh input.",
 ["encoding/midi/decoder.go","midi/context/context.go","midi/lib/manufacturer.go","ops"],[("per-track context","encoding/midi/decoder.go")],["outputs compared with a fresh baseline"])
p("P20","The command line reports failure and writes exactly the requested output",
 "Every command exits with status 0 and writes the requested output file (or standard output) when it succeeds, and exits with a non-zero status and an error message, leaving an existing output file as it was, when the input is missing, cannot be decoded or cannot be assembled or the output cannot be created. The input file is never modified, the output of a command equals the result of the underlying operation, and the output of assemble defaults to the input name with extension .midi.",
 ["configurations","inputs"],"every command x valid, undecodable, missing and empty inputs x output options x existing, unwritable and absent outputs x middle C option",
 "There are no command line tests.",
 ["cmd/midiasm/main.go","commands"],[("command dispatch","cmd/midiasm/main.go"),("Execute of each command","commands/")],["exit status, stdout, stderr, files"])
p("P21","An output that cannot be written in full is reported",
 "If the destination of an encoder, listing, JSON export, note list or TSV export fails or accepts fewer bytes at any point, the operation returns an error and the command exits with a non-zero status; nothing is reported as success unless every byte was accepted. The bytes accepted before the failure are a prefix of the complete output.",
 ["fault_sequences"],"a write failure at every byte offset of the output of every operation on a corpus, as error, short write and full device",
 "Tests write to memory buffers that never fail.",
 ["encoding/midi/encoder.go","ops/disassemble/disassemble.go","ops/export/export.go","ops/notes/notes.go","commands"],[("error propagation","ops/, commands/")],["returned error / exit status"])
p("P22","A program change carries the bank most recently selected on its channel",
 "Every program change is reported with the 14-bit bank formed from the most recent bank select MSB and LSB controllers on the same channel earlier in the same track, 0 where there was none; other controllers, channels, tracks and events do not affect it.",
 ["histories"],"all controller histories; explored: all sequences up to length 5 (quick) / 6 (thorough) of MSB, LSB, other controllers, program changes and unrelated events over 2 channels, all 128x128 MSB/LSB values, all 16 channels",
 "Tests check one bank value on one channel.",
 ["midi/MTrk.go","midi/context/context.go","midi/events/midi/program_change.go"],[("ProgramBank","midi/MTrk.go:UnmarshalBinary")],["bank field of program changes"],
 [("ProgramBank","selected bank per channel","midi/context/context.go")])
p("P23","Text assembly is independent of how its input arrives and cleans up after itself",
 "The text assembler gives the same result however its input is divided over read calls, reports a read error that occurs at any point instead of assembling what came before it, and when it returns, with a file or an error at any line, no goroutine it started is left running. Concurrent assemblies do not affect each other.",
 ["schedules","fault_sequences"],"every read partition size, every read error offset, an invalid line at every position, 1..4 concurrent assemblies under 1..8 processors, with the race detector",
 "Tests read from an in-memory buffer and never look at goroutines.",
 ["ops/assemble/text.go"],[("scan/chunkify/parseMTrk goroutines","ops/assemble/text.go")],["result, error, goroutine count, race reports"])
p("P24","Custom templates change exactly the fragments they name",
 "Loading custom (non-blank) listing templates replaces the named fragments and leaves every other fragment of the listing as it was, for every subset of fragments and in whatever order they are loaded. An invalid template file is reported as an error.",
 ["configurations"],"every single fragment, every pair of fragments, every loading order of up to 3 loads, invalid template files",
 "There is one template test.",
 ["ops/disassemble/disassemble.go","ops/disassemble/template"],[("LoadTemplates","ops/disassemble/disassemble.go")],["listing text"])
p("P25","Every event decodes, encodes and serialises on its own",
 "Decoding the bytes of a single event through the library (the generic event or the event's own type) reports exactly the kind, delta, channel and field values of the bytes, or an error if the bytes are not one well-formed event: wrong length, data byte over 127, value out of range or truncated. Encoding the decoded event gives bytes that decode to the same event, and so does its JSON form; an event type never accepts the bytes of another kind with different content.",
 ["inputs"],"every event of every kind; explored: the full data domain of each kind, every delta size, every prefix, every single byte change, all byte strings 00 xx yy zz, every meta type with lengths 0..7",
 "The tests decode one byte string per event type.",
 ["midi/events/event.go"]+ev,[("UnmarshalBinary / MarshalBinary / JSON of every event","midi/events/*/")],["decoded event or error","encoded bytes","JSON"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
