package main

import "fmt"

func init() {
	// decoder against the reference, whole file
	oracle("decode", func(in []byte, arg string) (string, error) {
		c, _, _, err := decodeCheck(in)
		return c, err
	})
	// the input is a track body
	oracle("body", func(in []byte, arg string) (string, error) {
		c, _, _, err := decodeCheck(file1(in))
		return c, err
	})

	check(&Check{ID: "P01", Level: "exploration",
		Rule:  "decode every file of the space with the real decoder and compare every event (kind, bytes, delta, tick, status, channel, fields, names) with an independent byte-level reference parser",
		Assum: []string{"polyphonic pressure has one data byte and pitch bend is MSB first, as pinned by the tests (known findings)", "VLQs over 4 bytes, meta types over 127, an end of track with data and F0 01 F7 are outside the space (unspecified)"},
		Run:   runP01})
}

func runP01(r *R) {
	for _, d := range domains() {
		sweep(r, "decode", d, 1024)
	}
	if r.Thorough() {
		sweep(r, "decode", tempoDomain, 4096)
	} else {
		sweep(r, "decode", tempoSome, 4096)
	}
	corpusCases(r, "decode")
	seqs(r, "body", alphabet(), ifelse(r.Thorough(), 4, 3), "")
	bodies3(r, "body")
	scaleCases(r, r.Par, "decode", "", 4096)
	extremeTriples(r, "body", "", cat)
	rawTextCases(r, r.Par, "decode", "")
	// the same events in another track, and around foreign chunks
	a := alphabet()
	r.Par("pairs of events x placement", len(a)*len(a), func(w *W, i int) bool {
		x := cat(a[i%len(a)].B, a[i/len(a)].B)
		return w.Case("decode", fileN(1, 480, tempoTrack(), cat(x, eot)), "") &&
			w.Case("decode", fileN(2, 480, x, melody(0)), "") &&
			w.Case("decode", cat(hdr(1, 3, 96), chunkOf("abcd", x), mtrk(everything()), mtrk(x), chunkOf("mtrk", x), mtrk(x)), "")
	})
	r.Sample(fmt.Sprintf("domains: %d kinds, e.g. % X", len(domains()), domains()[3].track(5000, 3)))
}

func ifelse[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Every element of the domain, in tracks of n events (fewer if the events are long).
func sweep(r *R, name string, d Domain, n int) {
	sweepArg(r, name, d, n, "")
}

func sweepArg(r *R, name string, d Domain, n int, arg string) {
	if d.N <= 300 || len(d.At(d.N-1)) > 1000 {
		n = 1
	}
	r.Par("domain "+d.Name+arg, (d.N+n-1)/n, func(w *W, i int) bool {
		return w.Case(name, file1(d.track(i*n, n)), arg)
	})
}

func corpusCases(r *R, name string) {
	c := corpus()
	r.Par("corpus", len(c), func(w *W, i int) bool { return w.Case(name, c[i].B, "") })
}

// Every sequence of up to n symbols, as a track body.
func seqs(r *R, name string, a []Sym, n int, arg string) {
	k := len(a)
	r.Par(fmt.Sprintf("all event sequences of length <= %d over %d events %s", n, k, arg), words(k, n), func(w *W, i int) bool {
		var buf [8]int
		return w.Case(name, join(a, word(k, i, buf[:])), arg)
	})
}

// All track bodies of up to 2 bytes, and 00 followed by any 3 bytes.
func bodies3(r *R, name string) {
	bodies2(r, name)
	r.Par("all bodies 00 xx yy zz", 1<<24, func(w *W, i int) bool {
		return w.Case(name, []byte{0, byte(i >> 16), byte(i >> 8), byte(i)}, "")
	})
}

func bodies2(r *R, name string) {
	r.Par("all bodies of <= 2 bytes", 1+256+65536, func(w *W, i int) bool {
		switch {
		case i == 0:
			return w.Case(name, nil, "")
		case i <= 256:
			return w.Case(name, []byte{byte(i - 1)}, "")
		default:
			i -= 257
			return w.Case(name, []byte{byte(i >> 8), byte(i)}, "")
		}
	})
}
