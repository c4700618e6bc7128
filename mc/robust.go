package main

// Robustness of every operation (P07), truncated and unreadable input (P08) and variable length
// quantities (P09).

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"maps"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/transcriptaze/midiasm/commands"
	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

// ---- scratch files

var scratchOnce sync.Once
var scratchPath string
var scratchSeq atomic.Int64

func scratchDir() string {
	scratchOnce.Do(func() {
		if d := os.Getenv("MC_SCRATCH"); d != "" {
			scratchPath = d
			return
		}
		d, err := os.MkdirTemp("", "mc-scratch-")
		if err != nil {
			panic(err)
		}
		scratchPath = d
	})
	return scratchPath
}

func scratchFile(ext string) string {
	return filepath.Join(scratchDir(), fmt.Sprintf("f%d.%d%s", os.Getpid(), scratchSeq.Add(1), ext))
}

// ---- operations

var sharedList = sync.OnceValue(func() *disassemble.Disassemble {
	d, err := disassemble.NewDisassemble()
	if err != nil {
		panic(err)
	}
	return d
})

// As listFresh, with one disassembler for all (parsing the templates takes most of the time otherwise).
func list(smf any, tmpl string) (string, error) {
	var b bytes.Buffer
	err := sharedList().Print(smf, tmpl, &b)
	return b.String(), err
}

// The TSV export of a file to standard output (which is /dev/null here).
func tsvStdout(in []byte) error {
	f := scratchFile(".mid")
	if err := os.WriteFile(f, in, 0600); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	fs := flag.NewFlagSet("tsv", flag.ContinueOnError)
	fs.Parse([]string{f})
	return commands.TSV.Execute(fs)
}

func noteList(smf *midi.SMF, steps int, asJSON bool) ([]byte, error) {
	var b bytes.Buffer
	x := notes.Notes{Transpose: steps, JSON: asJSON, Writer: &b}
	err := x.Execute(smf)
	return b.Bytes(), err
}

func transposed(smf *midi.SMF, n int) ([]byte, error) {
	t := transpose.Transpose{}
	return t.Execute(smf, n)
}

func clicks(smf *midi.SMF) ([]byte, error) {
	var b bytes.Buffer
	c := click.ClickTrack{Writer: &b}
	err := c.Execute(smf)
	return b.Bytes(), err
}

// Every operation on a file. Only a panic (or a hang) is a violation.
func opsOracle(in []byte, arg string) (string, error) {
	smf, err := decode(in)
	if err != nil {
		return "rejected", nil
	}
	if smf == nil || smf.MThd == nil {
		return "", fmt.Errorf("decoding gives neither a file nor an error")
	}
	outcome := []string{}
	add := func(name string, err error) {
		outcome = append(outcome, ifelse(err == nil, name, name+":error"))
	}
	smf.Validate()
	_, err = list(smf, "document")
	add("list", err)
	if _, err := list(smf.MThd, "MThd"); err != nil {
		add("split", err)
	}
	for _, t := range smf.Tracks {
		if _, err := list(t, "MTrk"); err != nil {
			add("split", err)
		}
	}
	_, err = exportJSON(smf)
	add("json", err)
	if arg != "notsv" {
		add("tsv", tsvStdout(in))
	}
	_, err = noteList(smf, 0, false)
	add("notes", err)
	_, err = noteList(smf, 5, true)
	add("notes", err)
	_, err = noteList(smf, -200, false)
	add("notes", err)
	_, err = clicks(smf)
	add("click", err)
	_, err = encode(smf)
	add("encode", err)
	b, err := transposed(smf, 7)
	add("transpose", err)
	if err == nil {
		if t, err := decode(b); err != nil {
			add("decode", err)
		} else {
			_, err = list(t, "document")
			add("list", err)
		}
	}
	_, err = transposed(smf, -300)
	add("transpose", err)
	_, err = encode(smf)
	add("encode", err)
	_, err = noteList(smf, 1, false)
	add("notes", err)
	return strings.Join(outcome, " "), nil
}

// The memory allocated by a decode: in proportion to the input, not to the lengths in it.
func allocOracle(in []byte, arg string) (string, error) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, err := decode(in)
	runtime.ReadMemStats(&b)
	n := b.TotalAlloc - a.TotalAlloc
	limit := uint64(2<<20 + 2000*len(in))
	if n > limit {
		return "", fmt.Errorf("decoding %d bytes allocated %d bytes (limit %d)", len(in), n, limit)
	}
	return ifelse(err == nil, "accepted", "rejected"), nil
}

func init() {
	oracle("ops", opsOracle)
	oracle("ops-body", func(in []byte, arg string) (string, error) { return opsOracle(file1(in), arg) })
	oracle("alloc", allocOracle)
	check(&Check{ID: "P07", Level: "exploration",
		Rule:  "run the decoder and, if it succeeds, every operation on every input of the space: all short track bodies, all event sequences, all single-byte mutations and truncations of a corpus, all sequences of chunk fragments, all header values; panics, hangs (60 s) and out-of-proportion allocation are violations",
		Assum: []string{"memory is measured as total allocation of a decode, with a limit of 2 MB plus 2000 bytes per input byte"},
		Run:   runP07})
	check(&Check{ID: "P08", Level: "fault_enumeration",
		Rule:  "every prefix, every read error offset (with and without data), every division of the input over read calls with up to two cuts (and zero-byte reads, and data with EOF), every value of every length byte and every track count, on every file of a corpus; verdict and content against the reference parser",
		Assum: []string{"a prefix that is itself a complete file (only foreign chunks removed) is a complete file"},
		Run:   runP08})
	check(&Check{ID: "P09", Level: "exploration",
		Rule: "all 2^28 values encoded and decoded, all 4-byte-or-shorter forms decoded; whole files with every edge value as the delta of every kind of event and every length of every variable-length event",
		Run:  runP09})
}

func runP07(r *R) {
	// allocation first, while nothing else runs
	lens := []uint32{0x10, 0x7f, 0x80, 0x1000, 0x3fff, 0x100000, 0x1000000, 0x8000000, 0xfffffff}
	heads := [][]byte{{0xf0}, {0xf7}, {0xff, 0x01}, {0xff, 0x03}, {0xff, 0x7f}, {0xff, 0x51}, {0xff, 0x2f}, {0xff, 0x00}, {0xff, 0x54}, {0xff, 0x58}, {0xff, 0x59}, {0xff, 0x20}, {0xff, 0x60}}
	r.Seq("allocation: event lengths", len(lens)*len(heads)*4, func(w *W, i int) bool {
		b := cat([]byte{0}, heads[i/4%len(heads)], vlq(lens[i/4/len(heads)]), fill([]int{0, 1, 5, 300}[i%4]))
		return w.Case("alloc", file1(b), "")
	})
	chunkLens := []uint32{7, 100, 0xffff, 0x100000, 0x1000000, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}
	r.Seq("allocation: chunk lengths", len(chunkLens)*3*3, func(w *W, i int) bool {
		n := chunkLens[i/9]
		b := cat([]byte([]string{"MThd", "MTrk", "XXXX"}[i%3]), []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, fill([]int{0, 6, 500}[i/3%3]))
		if i%3 != 0 {
			b = cat(hdr(1, 1, 96), b)
		}
		return w.Case("alloc", b, "")
	})
	r.Seq("allocation: track counts", 17, func(w *W, i int) bool { return w.Case("alloc", cat(hdr(1, 1<<i-1, 96), mtrk(eot)), "") })
	r.Seq("allocation: many events", 4, func(w *W, i int) bool {
		b := []byte{}
		for k := 0; k < 20000; k++ {
			b = append(b, [][]byte{ch(0, 0x90, 1, 1), meta(0, 1, nil), sysx(0, 0xf7, nil), ch(0, 0x91, byte(k&0x7f), 3)}[i]...)
		}
		return w.Case("alloc", file1(b), "")
	})

	bodies2(r, "ops-body")
	if r.Thorough() {
		bodies3(r, "ops-body")
	} else {
		// every status byte with the values at which something changes
		v := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x2f, 0x40, 0x51, 0x54, 0x58, 0x59, 0x60, 0x7e, 0x7f, 0x80, 0x81, 0x90, 0xc0, 0xf0, 0xf7, 0xff}
		r.Par("bodies 00 xx yy zz, yy and zz from 28 values", 256*len(v)*len(v), func(w *W, i int) bool {
			return w.Case("ops-body", []byte{0, byte(i), v[(i>>8)%len(v)], v[(i>>8)/len(v)]}, "notsv")
		})
	}
	corpusCases(r, "ops")
	e := extremes()
	r.Par("pairs of events at their limits, both deltas long or not", len(e)*len(e), func(w *W, i int) bool {
		d := vlq([]uint32{0, 0xfffffff}[i%2])
		return w.Case("ops-body", cat(d, e[i/len(e)], d, e[i%len(e)]), "notsv")
	})
	a := alphabet()
	seqs(r, "ops-body", a, 2, "")
	if r.Thorough() {
		seqs(r, "ops-body", a, 3, "notsv")
	}
	// the sequences as track 0 and 1 of a format 1 file, and a time division of 0
	r.Par("pairs of events x placement", len(a)*len(a), func(w *W, i int) bool {
		x := cat(a[i%len(a)].B, a[i/len(a)].B)
		return w.Case("ops", fileN(1, 0, tempoTrack(), x), "notsv") && w.Case("ops", fileN(1, 480, x, melody(2)), "notsv") && w.Case("ops", fileN(2, 0xe250, x, x), "notsv")
	})
	// every value of every byte
	c := corpus()
	for _, f := range c {
		if len(f.B) > 700 {
			continue
		}
		vals := []byte{0, 1, 2, 3, 5, 6, 0x20, 0x21, 0x2f, 0x51, 0x54, 0x58, 0x59, 0x60, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xa0, 0xb0, 0xbf, 0xc0, 0xd0, 0xe0, 0xef, 0xf0, 0xf1, 0xf4, 0xf7, 0xf8, 0xfe, 0xff}
		if r.Thorough() || len(f.B) < 60 {
			vals = pattern(256, func(i int) byte { return byte(i) })
		}
		r.Par("every byte of "+f.Name+" replaced", len(f.B)*len(vals), func(w *W, i int) bool {
			b := append([]byte{}, f.B...)
			b[i/len(vals)] = vals[i%len(vals)]
			return w.Case("ops", b, "notsv")
		})
		r.Par("every prefix of "+f.Name, len(f.B), func(w *W, i int) bool { return w.Case("ops", f.B[:i], "notsv") })
		r.Par("every byte of "+f.Name+" removed or doubled", len(f.B)*2, func(w *W, i int) bool {
			k := i / 2
			if i%2 == 0 {
				return w.Case("ops", cat(f.B[:k], f.B[k+1:]), "notsv")
			}
			return w.Case("ops", cat(f.B[:k+1], f.B[k:]), "notsv")
		})
	}
	// chunk structures
	frags := [][]byte{hdr(1, 1, 96), hdr(0, 0, 0), hdr(1, 2, 0xe728), mtrk(eot), mtrk(), mtrk(melody(1)), mtrk(tempoTrack()), chunkOf("XXXX", fill(3)), chunkOf("MThd"), chunkOf("MThd", fill(5)), {0x4d}, []byte("MTrk"), []byte("MTrk\x00\x00\x00"), {0, 0, 0, 0, 0, 0, 0, 0}, []byte("MTrk\xff\xff\xff\xff")}
	n := ifelse(r.Thorough(), 5, 4)
	r.Par(fmt.Sprintf("all sequences of <= %d chunk fragments", n), words(len(frags), n), func(w *W, i int) bool {
		var buf [8]int
		b := []byte{}
		for _, k := range word(len(frags), i, buf[:]) {
			b = append(b, frags[k]...)
		}
		return w.Case("ops", b, "notsv")
	})
	r.Par("all header values", 3*65536, func(w *W, i int) bool {
		if !r.Thorough() && i%5 != 0 && i < 0x8000 {
			return true
		}
		switch i >> 16 {
		case 0:
			return w.Case("ops", cat(hdr(1, 2, i&0xffff), mtrk(tempoTrack()), mtrk(melody(0))), "notsv")
		case 1:
			return w.Case("ops", cat(hdr(i&0xffff, 1, 96), mtrk(eot)), "notsv")
		}
		return w.Case("ops", cat(hdr(1, i&0xffff, 96), mtrk(eot)), "notsv")
	})
	// meta events: every type x length, filled with every byte value
	r.Par("meta types x lengths x fill", 256*10*8, func(w *W, i int) bool {
		v := []byte{0, 1, 0x7f, 0x80, 0xff, 0xf7, 24, 59}[i&7]
		return w.Case("ops-body", cat(meta(0, byte(i/80), bytes.Repeat([]byte{v}, i/8%10)), eot), "notsv")
	})
	// tempo and time signature extremes against note and click extraction
	r.Par("tempo x division x time signature x ticks", 6*6*9*5, func(w *W, i int) bool {
		t := []uint32{0, 1, 500000, 0x7fffff, 0xfffffe, 0xffffff}[i%6]
		d := []int{0, 1, 24, 480, 0x7fff, 0xe728}[i/6%6]
		sig := [][]byte{{4, 2, 24, 8}, {0, 0, 0, 0}, {255, 7, 255, 255}, {0, 2, 24, 8}, {1, 7, 24, 8}, {4, 2, 0, 8}, {4, 2, 24, 0}, {255, 0, 1, 1}, {7, 3, 24, 8}}[i/36%9]
		dt := []uint32{0, 1, 1000, 1 << 20, 1<<28 - 1}[i/324]
		if d == 1 && dt > 1<<20 { // a bar per few ticks: the click track is as long as the music
			dt = 1 << 20
		}
		b := cat(meta(0, 0x51, []byte{byte(t >> 16), byte(t >> 8), byte(t)}), meta(0, 0x58, sig), ch(0, 0x90, 60, 1), ch(dt, 0x80, 60, 1), meta(dt, 0x51, []byte{0, 0, 1}), meta(dt, 0x58, []byte{3, 3, 24, 8}), ch(dt, 0x90, 60, 1), eot)
		return w.Case("ops", fileN(0, d, b), "notsv") && w.Case("ops", fileN(1, d, cat(meta(0, 0x51, []byte{byte(t >> 16), byte(t >> 8), byte(t)}), meta(0, 0x58, sig), meta(dt, 0x51, []byte{0, 0, 1}), eot), b), "notsv")
	})
	// large inputs: completing at all is the property
	r.Par("large inputs", 8, func(w *W, i int) bool {
		var b []byte
		rep := func(x []byte, n int) []byte { return cat(bytes.Repeat(x, n), eot) }
		switch i {
		case 0:
			b = file1(meta(0, 1, fill(2000000)), eot)
		case 1:
			b = file1(sysx(0, 0xf0, append(append([]byte{0x43}, fill(1000000)...), 0xf7)), eot)
		case 2:
			b = file1(rep(ch(1, 0x90, 60, 1), 20000))
		case 3:
			b = file1(rep(cat(ch(1, 0x90, 60, 1), ch(1, 0x80, 60, 1)), 20000))
		case 4:
			b = fileN(1, 96, rep(meta(1, 0x51, []byte{7, 8, 9}), 2000), rep(cat(ch(3, 0x90, 60, 1), ch(1, 0x80, 60, 1)), 2000))
		case 5:
			b = file1(rep(sysx(0, 0xf0, []byte{0x43, 1, 0xf7}), 20000))
		case 6:
			b = file1(rep(meta(1, 0x58, []byte{3, 2, 24, 8}), 5000))
		case 7:
			bs := [][]byte{}
			for k := 0; k < 500; k++ {
				bs = append(bs, melody(byte(k%16)))
			}
			b = fileN(1, 96, bs...)
		}
		return w.Case("ops", b, "")
	})
	r.Sample(map[string]string{"input": "00 FF 51 ...", "operations": "decode validate list split json tsv notes(text, json, transposed) click encode transpose(7, -300) encode list json"})
}

// ---- P08

var errInjected = errors.New("injected read error")

// Errors that a reader or writer may fail with and that code may be tempted to treat as an end or to ignore.
var ioErrors = map[string]error{
	"unexpected": io.ErrUnexpectedEOF, "noprogress": io.ErrNoProgress, "closedpipe": io.ErrClosedPipe, "shortbuffer": io.ErrShortBuffer,
	"shortwrite": io.ErrShortWrite, "closed": os.ErrClosed, "deadline": os.ErrDeadlineExceeded, "notexist": os.ErrNotExist, "epipe": syscall.EPIPE,
	"enospc": syscall.ENOSPC, "eio": &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}, "epipe-path": &os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE},
	"toolong": bufio.ErrTooLong, "canceled": context.Canceled,
}

var ioErrorNames = slices.Sorted(maps.Keys(ioErrors))

// A reader that delivers the input in the given segments (ends of segments), with the given quirks.
type segReader struct {
	b      []byte
	cuts   []int
	p      int
	zero   bool  // a (0, nil) read before each segment
	z      bool  // zero read given
	last   bool  // the final bytes come with EOF
	failAt int   // -1: never
	with   bool  // the error comes with the data before it
	err    error // io.EOF or the injected error
}

func (s *segReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero && !s.z {
		s.z = true
		return 0, nil
	}
	s.z = false
	end := len(s.b)
	if s.failAt >= 0 && s.failAt < end {
		end = s.failAt
	}
	if s.p >= end {
		if s.failAt >= 0 {
			return 0, s.err
		}
		return 0, io.EOF
	}
	for _, c := range s.cuts {
		if c > s.p && c < end {
			end = c
			break
		}
	}
	n := copy(p, s.b[s.p:end])
	s.p += n
	if s.failAt >= 0 && s.with && s.p == s.failAt {
		return n, s.err
	}
	if s.failAt < 0 && s.last && s.p == len(s.b) {
		return n, io.EOF
	}
	return n, nil
}

// arg: "cuts=a,b zero last" | "fail=n with"
func parseReader(b []byte, arg string) (*segReader, bool) {
	s := &segReader{b: b, failAt: -1}
	for _, f := range strings.Fields(arg) {
		switch k, v, _ := strings.Cut(f, "="); k {
		case "cuts":
			for _, c := range strings.Split(v, ",") {
				n, _ := strconv.Atoi(c)
				s.cuts = append(s.cuts, n)
			}
		case "every":
			n, _ := strconv.Atoi(v)
			for i := n; i < len(b); i += n {
				s.cuts = append(s.cuts, i)
			}
		case "zero":
			s.zero = true
		case "last":
			s.last = true
		case "fail":
			s.failAt, _ = strconv.Atoi(v)
			s.err = errInjected
		case "err":
			s.err = ioErrors[v]
		case "with":
			s.with = true
		}
	}
	return s, s.failAt >= 0
}

func readerOracle(in []byte, arg string) (string, error) {
	s, fails := parseReader(in, arg)
	smf, err := midifile.NewDecoder().Decode(s)
	if fails {
		if err == nil {
			return "", fmt.Errorf("a read error at offset %d was not reported", s.failAt)
		}
		if smf != nil {
			return "", fmt.Errorf("an error with a decoded file (%d tracks)", len(smf.Tracks))
		}
		return "read error reported", nil
	}
	f, v, why := refFile(in)
	switch {
	case v == Unspecified:
		return "unspecified", nil
	case v == Reject && err == nil:
		return "", fmt.Errorf("accepted a file that has to be rejected (%s)", why)
	case v == Reject:
		return "rejected", nil
	case err != nil:
		return "", fmt.Errorf("rejected a well-formed file read as %q: %v", arg, err)
	}
	got, err := canon(smf)
	if err != nil {
		return "", err
	}
	return "accepted", diffFile(f, got, cmpAll)
}

func init() { oracle("reader", readerOracle) }

func p08Corpus() []Named {
	c := corpus()
	return append(c,
		Named{"two small tracks", fileN(1, 96, tempoTrack(), cat(ch(0, 0x90, 60, 1), ch(200, 60, 0), eot))},
		Named{"small with sysex", file1(sysx(0, 0xf0, []byte{0x43, 1}), sysx(5, 0xf7, []byte{2, 0xf7}), eot)},
		Named{"small with foreign", cat(hdr(1, 1, 96), chunkOf("ABCD", []byte{1, 2, 3}), mtrk(meta(0, 1, []byte("hi")), eot))},
		Named{"no end of track, running", file1(ch(0, 0x90, 60, 1), ch(0, 61, 2), ch(0, 0xc0, 1), ch(0, 2))},
	)
}

func runP08(r *R) {
	c := p08Corpus()
	for _, f := range c {
		b := f.B
		n := len(b)
		big := n > 400
		r.Par("every prefix: "+f.Name, n, func(w *W, i int) bool { return w.Case("decode", b[:i], "") })
		kinds := len(ioErrorNames) + 1
		r.Par("every read error offset: "+f.Name, (n+1)*2*kinds, func(w *W, i int) bool {
			arg := fmt.Sprintf("fail=%d", i/2/kinds)
			if i&1 == 1 {
				arg += " with"
			}
			if k := i / 2 % kinds; k > 0 {
				arg += " err=" + ioErrorNames[k-1]
			}
			return w.Case("reader", b, arg) && w.Case("reader", b, arg+" every=3 zero")
		})
		r.Par("reads of every size: "+f.Name, n*4, func(w *W, i int) bool {
			arg := fmt.Sprintf("every=%d", i/4+1)
			if i&1 == 1 {
				arg += " zero"
			}
			if i&2 == 2 {
				arg += " last"
			}
			return w.Case("reader", b, arg)
		})
		r.Par("one cut: "+f.Name, n*2, func(w *W, i int) bool {
			return w.Case("reader", b, fmt.Sprintf("cuts=%d %s", i/2, ifelse(i&1 == 1, "last", "")))
		})
		if !big || r.Thorough() {
			r.Par("two cuts: "+f.Name, n*n, func(w *W, i int) bool {
				if i%n <= i/n {
					return true
				}
				return w.Case("reader", b, fmt.Sprintf("cuts=%d,%d", i/n, i%n))
			})
		}
		if !big {
			r.Par("prefix x read error or partition: "+f.Name, n*8, func(w *W, i int) bool { return w.Case("reader", b[:i/8], fmt.Sprintf("every=%d last", 1+i%8)) })
		}
		// every value of every byte: lengths, counts, everything else (the reference decides)
		if n < 600 {
			r.Par("every byte replaced: "+f.Name, n*256, func(w *W, i int) bool {
				x := append([]byte{}, b...)
				x[i>>8] = byte(i)
				return w.Case("decode", x, "")
			})
			r.Par("bytes removed: "+f.Name, n*8, func(w *W, i int) bool {
				k, m := i/8, i%8+1
				if k+m > n {
					return true
				}
				return w.Case("decode", cat(b[:k], b[k+m:]), "")
			})
			r.Par("bytes inserted: "+f.Name, n*6, func(w *W, i int) bool {
				return w.Case("decode", cat(b[:i/6], []byte{[]byte{0, 1, 0x7f, 0x80, 0xf7, 0xff}[i%6]}, b[i/6:]), "")
			})
		}
	}
	base := cat(hdr(1, 2, 96), mtrk(tempoTrack()), mtrk(melody(0)))
	r.Par("every track count, 0 to 3 tracks", 65536*4, func(w *W, i int) bool {
		b := hdr(1, i&0xffff, 96)
		for k := 0; k < i>>16; k++ {
			b = append(b, mtrk(eot)...)
		}
		return w.Case("decode", b, "")
	})
	// a length that is off, for every event with a length and every offset up to 300
	kinds := [][]byte{{0xff, 1}, {0xff, 3}, {0xff, 9}, {0xff, 0x7f}, {0xf0}, {0xf7}, {0xff, 0x51}, {0xff, 0x54}, {0xff, 0x58}, {0xff, 0x59}, {0xff, 0}, {0xff, 0x20}, {0xff, 0x21}, {0xff, 0x2f}}
	r.Par("event lengths: kind x declared x actual", len(kinds)*150*40, func(w *W, i int) bool {
		k := kinds[i%len(kinds)]
		declared, actual := uint32(i/len(kinds)%150), i/len(kinds)/150*4
		return w.Case("body", cat([]byte{0}, k, vlq(declared), bytes.Repeat([]byte{2}, actual)), "")
	})
	edge := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 26, 27, 28, 29, 30, 60, 100, 127, 128, 255, 256, 1000, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff}
	for i := 0; i < 120; i++ {
		edge = append(edge, uint32(i))
	}
	r.Par("chunk lengths", len(edge)*3, func(w *W, i int) bool {
		x := append([]byte{}, base...)
		p := []int{4, 18, 22 + len(tempoTrack()) + 4}[i%3]
		v := edge[i/3]
		x[p], x[p+1], x[p+2], x[p+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		return w.Case("decode", x, "")
	})
}

// ---- P09

type byteReader struct {
	b []byte
	p int
}

func (r *byteReader) ReadByte() (byte, error) {
	if r.p >= len(r.b) {
		return 0, io.EOF
	}
	r.p++
	return r.b[r.p-1], nil
}

// arg is the first of 65536 consecutive values
func vlqOracle(in []byte, arg string) (string, error) {
	base, _ := strconv.Atoi(arg)
	var buf [4]byte
	for i := 0; i < 65536; i++ {
		v := uint32(base + i)
		n := 1
		for x := v >> 7; x > 0; x >>= 7 {
			n++
		}
		for k, x := n-1, v; k >= 0; k, x = k-1, x>>7 {
			buf[k] = byte(x & 0x7f)
			if k < n-1 {
				buf[k] |= 0x80
			}
		}
		b, err := lib.Delta(v).MarshalBinary()
		if err != nil || !bytes.Equal(b, buf[:n]) {
			return "", fmt.Errorf("delta %d: expected % X, got % X (%v)", v, buf[:n], b, err)
		}
		r := byteReader{b: append(b, 0x55)}
		d, err := lib.DecodeDelta(&r)
		if err != nil || uint32(d) != v || r.p != n {
			return "", fmt.Errorf("% X: expected %d from %d bytes, got %d from %d (%v)", b, v, n, d, r.p, err)
		}
	}
	return "ok", nil
}

// arg is the first of 65536 consecutive 28 bit patterns, as 4 byte forms
func vlq4Oracle(in []byte, arg string) (string, error) {
	base, _ := strconv.Atoi(arg)
	for i := 0; i < 65536; i++ {
		v := uint32(base + i)
		b := []byte{byte(v>>21) | 0x80, byte(v>>14) | 0x80, byte(v>>7) | 0x80, byte(v & 0x7f), 0x00}
		r := byteReader{b: b}
		if d, err := lib.DecodeDelta(&r); err != nil || uint32(d) != v || r.p != 4 {
			return "", fmt.Errorf("% X: expected %d from 4 bytes, got %d from %d (%v)", b[:4], v, d, r.p, err)
		}
	}
	return "ok", nil
}

// Whole files with n consecutive deltas: decoded deltas, and the encoder's bytes. arg: first, in: unused.
func deltaFileOracle(in []byte, arg string) (string, error) {
	var base, step, n int
	fmt.Sscanf(arg, "%d %d %d", &base, &step, &n)
	body := make([]byte, 0, n*8)
	for i := 0; i < n; i++ {
		body = append(body, vlq(uint32(base+i*step))...)
		switch i % 4 {
		case 0:
			body = append(body, 0xb0, 7, 7)
		case 1:
			body = append(body, 0xff, 1, 0)
		case 2:
			body = append(body, 0xc0, 7)
		case 3:
			body = append(body, 0xf7, 1, 5)
		}
	}
	b := file1(body)
	smf, err := decode(b)
	if err != nil {
		return "", err
	}
	es := smf.Tracks[0].Events
	if len(es) != n {
		return "", fmt.Errorf("expected %d events, got %d", n, len(es))
	}
	tick := uint64(0)
	for i, e := range es {
		v := uint32(base + i*step)
		tick += uint64(v)
		if e.Delta() != v || e.Tick() != tick {
			return "", fmt.Errorf("expected delta %d tick %d, got %d %d", v, tick, e.Delta(), e.Tick())
		}
	}
	x, err := encode(smf)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(x, b) {
		return "", fmt.Errorf("the encoded file differs from the one with minimal deltas from %d", base)
	}
	return "ok", nil
}

// The input file has minimal lengths and explicit statuses only: it is reproduced exactly.
func identicalOracle(in []byte, arg string) (string, error) {
	c, smf, _, err := decodeCheck(in)
	if err != nil || smf == nil {
		return c, err
	}
	b, err := encode(smf)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(b, in) {
		return "", fmt.Errorf("the encoded file differs from the minimal one: % X, % X", clip(in[22:]), clip(b[min(22, len(b)):]))
	}
	return c, nil
}

func init() {
	oracle("vlq", vlqOracle)
	oracle("vlq4", vlq4Oracle)
	oracle("deltas", deltaFileOracle)
	oracle("identical", identicalOracle)
}

func runP09(r *R) {
	r.Par("all 2^28 values, in blocks of 65536", 4096, func(w *W, i int) bool { return w.Case("vlq", nil, strconv.Itoa(i<<16)) })
	r.Par("all 2^28 four byte forms, in blocks of 65536", 4096, func(w *W, i int) bool { return w.Case("vlq4", nil, strconv.Itoa(i<<16)) })
	r.Par("files with consecutive deltas up to 2^16", 16, func(w *W, i int) bool { return w.Case("deltas", nil, fmt.Sprintf("%d 1 4096", i<<12)) })
	if r.Thorough() {
		r.Par("files with all deltas", 65536, func(w *W, i int) bool { return w.Case("deltas", nil, fmt.Sprintf("%d 1 4096", i<<12)) })
	} else {
		r.Par("files with every 61st delta", 1074, func(w *W, i int) bool { return w.Case("deltas", nil, fmt.Sprintf("%d 61 4096", i*4096*61)) })
	}
	ds := vlqEdges()
	a := alphabet()
	r.Par("every kind of event x delta", len(a)*len(ds), func(w *W, i int) bool {
		_, n, _ := readVLQ(a[i/len(ds)].B)
		return w.Case("identical", file1(vlq(ds[i%len(ds)]), a[i/len(ds)].B[n:], eot), "")
	})
	// every length of every event with a length
	heads := [][]byte{{0xff, 1}, {0xff, 2}, {0xff, 3}, {0xff, 4}, {0xff, 5}, {0xff, 6}, {0xff, 7}, {0xff, 8}, {0xff, 9}, {0xff, 0x7f}, {0xf0}, {0xf7}}
	lengths := func(w *W, k, n int) bool {
		h := heads[k]
		d := pattern(n, func(i int) byte { return byte(i*7+1) & 0x7f })
		if h[0] == 0xf0 {
			if n < 2 {
				return true
			}
			d[0], d[n-1] = 0x43, 0xf7
		}
		if len(h) == 2 && h[1] == 0x7f {
			if n < 1 {
				return true
			}
			d[0] = 0x43
		}
		return w.Case("identical", file1([]byte{3}, h, vlq(uint32(n)), d, eot), "")
	}
	N := ifelse(r.Thorough(), 40000, 17000)
	r.Par("every length", N*len(heads), func(w *W, i int) bool {
		n := i / len(heads)
		if !r.Thorough() && n > 600 && n < 16200 && n%16 != i%16 {
			return true
		}
		return lengths(w, i%len(heads), n)
	})
	big := []int{32767, 32768, 65535, 65536, 100000, 1 << 20, 1<<21 - 1, 1 << 21, 1<<21 + 1, 3000000}
	r.Par("large lengths", len(big)*len(heads), func(w *W, i int) bool { return lengths(w, i%len(heads), big[i/len(heads)]) })
	// SysEx packets
	r.Par("SysEx packet lengths", 18000, func(w *W, i int) bool {
		if i > 300 && i < 16300 && i%37 != 0 {
			return true
		}
		d := pattern(i, func(i int) byte { return byte(i & 0x7f) })
		return w.Case("identical", file1(sysx(0, 0xf0, append([]byte{0x43}, d...)), sysx(0, 0xf7, d), sysx(0, 0xf7, append(append([]byte{}, d...), 0xf7)), eot), "")
	})
	// non-minimal forms
	r.Par("non-minimal deltas and lengths", 128*4*4, func(w *W, i int) bool {
		v, p, q := byte(i&0x7f), i>>7&3, i>>9
		pad := func(n int, v byte) []byte { return append(bytes.Repeat([]byte{0x80}, n), v) }
		return w.Case("body", cat(pad(p, v), []byte{0xff, 1}, pad(q, v), fill(int(v)), pad(p, v), []byte{0xf7}, pad(q, v), fill(int(v)), pad(p, v), []byte{0x90, 1, 1}, pad(p, v), []byte{2, 2}, eot), "")
	})
	r.Par("two byte forms", 1<<14, func(w *W, i int) bool {
		return w.Case("body", cat([]byte{byte(i>>7) | 0x80, byte(i & 0x7f), 0x90, 1, 1, 0x80, byte(i>>7) | 0x80, byte(i & 0x7f), 0x80, 1, 1}, eot), "")
	})
	r.Sample("delta 268435455: FF FF FF 7F")
}
