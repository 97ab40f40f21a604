// F02: decoding FITS.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
)

// chunky returns data in generated pieces, and possibly io.EOF together with the last piece.
type chunky struct {
	b      []byte
	s      *vk.Stream
	max    int
	eofNow bool
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := c.s.Int(1, c.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 && c.eofNow {
		return n, io.EOF
	}
	return n, nil
}

func readVia(g *vk.G, t *vk.T, b []byte, data bool) *fits.Image {
	f := fits.NewImage()
	var err error
	how := ""
	switch g.Pick(2, 3, 1, 1) {
	case 0:
		how = "whole"
		err = f.Read(bytes.NewReader(b), data, io.Discard)
	case 1:
		how = "pieces"
		c := &chunky{b: b, s: g.Stream(), max: vk.OneOf(g, 7, 1, 100, 5000, 20000), eofNow: g.Bool()}
		err = f.Read(c, data, io.Discard)
	default:
		name := vk.OneOf(g, "x.fits", "x.fit", "x.FITS")
		how = "file"
		out := b
		if g.Bool() {
			how = "gzip file"
			name += vk.OneOf(g, ".gz", ".gzip", ".GZ", ".GZIP", ".Gz", ".gZip")
			var z bytes.Buffer
			w, _ := gzip.NewWriterLevel(&z, g.Int(0, 9))
			w.Write(b)
			w.Close()
			out = z.Bytes()
		}
		path := filepath.Join(t.Dir, name)
		if err := os.WriteFile(path, out, 0644); err != nil {
			panic(err)
		}
		defer os.Remove(path)
		if data {
			f, err = fits.NewImageFromFile(path, 3, io.Discard)
		} else {
			f, err = fits.NewImageMasterDataFromFile(path, 3, io.Discard)
		}
	}
	t.Class("%s", how)
	if err != nil {
		t.Fail("reading (%s) failed: %v", how, err)
	}
	return f
}

// raw draws a stored value for the given BITPIX.
func raw(s *vk.Stream, bitpix, mode int) []byte {
	var b [8]byte
	switch bitpix {
	case 8:
		b[0] = byte(s.U64())
		return b[:1]
	case 16:
		v := int16(s.U64())
		switch mode {
		case 1:
			v = int16(s.Int(-32768, -32700))
		case 2:
			v = []int16{0, -1, 1, -32768, 32767, 255, 256, -256}[s.Int(0, 7)]
		}
		binary.BigEndian.PutUint16(b[:], uint16(v))
		return b[:2]
	case 32:
		v := int32(s.U64())
		switch mode {
		case 1:
			v = math.MinInt32 + int32(s.Int(0, 70000))
		case 2:
			v = []int32{0, -1, 1, math.MinInt32, math.MaxInt32, 255, 256, 65536, 1 << 24}[s.Int(0, 8)]
		}
		binary.BigEndian.PutUint32(b[:], uint32(v))
		return b[:4]
	case 64:
		v := int64(s.U64())
		switch mode {
		case 1:
			v = int64(s.Int(-100000, 100000))
		case 2:
			v = []int64{0, -1, 1, math.MinInt64, math.MaxInt64, 255, 256, 1 << 32, 1 << 40, 1<<24 + 1}[s.Int(0, 9)]
		}
		binary.BigEndian.PutUint64(b[:], uint64(v))
		return b[:8]
	case -32:
		v := float32(s.Float(-1, 1) * 65535)
		switch mode {
		case 1:
			v = float32(s.Norm() * math.Pow(10, float64(s.Int(-20, 20))))
		case 2:
			v = []float32{0, -1, 1, float32(math.Inf(1)), float32(math.NaN()), 1e-40, 16777216}[s.Int(0, 6)]
		}
		binary.BigEndian.PutUint32(b[:], math.Float32bits(v))
		return b[:4]
	default:
		v := s.Float(-1, 1) * 65535
		switch mode {
		case 1:
			v = s.Norm() * math.Pow(10, float64(s.Int(-20, 20)))
		case 2:
			v = []float64{0, -1, 1, math.Inf(-1), math.NaN(), 1e-40, 16777217, 1e6 + 0.125}[s.Int(0, 7)]
		}
		binary.BigEndian.PutUint64(b[:], math.Float64bits(v))
		return b[:8]
	}
}

func num(g *vk.G) (string, float64) {
	var s string
	switch g.Pick(3, 2, 2, 2) {
	case 0:
		s = strconv.Itoa(g.Int(-70000, 70000))
	case 1:
		s = fmt.Sprintf("%.*f", g.Int(1, 6), g.Float(-1000, 1000))
	case 2:
		s = fmt.Sprintf("%.*E", g.Int(0, 8), g.Float(-1, 1)*math.Pow(10, float64(g.Int(-9, 9))))
	default:
		s = strings.Replace(fmt.Sprintf("%.*E", g.Int(1, 12), g.Float(-1, 1)*math.Pow(10, float64(g.Int(-9, 9)))), "E", "D", 1)
	}
	v, _ := strconv.ParseFloat(strings.Replace(s, "D", "E", 1), 64)
	return s, v
}

func main() {
	vk.Main("F02", []string{"no BLANK keyword; header numbers fit the 32-bit float range; standard-conforming headers", "BZERO and BSCALE and results are rounded to 32-bit floats; 64-bit integers are scaled in double precision"},
		&vk.Law{Name: "pixels", Quick: 12000, Thorough: 300000, Rule: "all six encodings, 1-4 axes, sizes around the 16 KiB buffer and 2880-byte block boundaries, with and without BZERO/BSCALE, delivered whole, in arbitrary pieces, or from plain and gzip files, with or without padding; non-trivial if more than one pixel",
			Run: func(g *vk.G, t *vk.T) {
				bitpix := vk.OneOf(g, 16, 8, 32, 64, -32, -64)
				w := bitpix / 8
				if w < 0 {
					w = -w
				}
				n := 1
				var axes []int
				if g.Chance(1, 4) {
					n = vk.OneOf(g, 16384/w, 2*16384/w, 2880/w) + g.Int(-2, 2)
					axes = []int{n}
					if n%4 == 0 && g.Bool() {
						axes = []int{n / 4, 4}
					}
				} else {
					for i, k := 0, g.Int(1, 4); i < k; i++ {
						a := 1 + g.Size(0, []int{200, 60, 4, 2}[i])
						axes = append(axes, a)
						n *= a
					}
				}
				bz, bs, exact := 0.0, 1.0, true
				cards := fx.Mandatory(bitpix, axes)
				var opt []string
				switch g.Pick(2, 2, 3) {
				case 1: // unsigned convention
					u := map[int]string{8: "-128", 16: "32768", 32: "2147483648", 64: "9223372036854775808", -32: "0", -64: "0"}[bitpix]
					if g.Bool() {
						u += ".0"
					}
					bz, _ = strconv.ParseFloat(u, 64)
					opt = append(opt, fmt.Sprintf("BZERO   = %20s", u))
					if g.Bool() {
						opt = append(opt, fmt.Sprintf("BSCALE  = %20s / x", vk.OneOf(g, "1", "1.0", "1.", "1E0", "1.0D0")))
					}
				case 2:
					if g.Bool() {
						var s string
						s, bz = num(g)
						opt = append(opt, fmt.Sprintf("BZERO   = %20s / zero", s))
					}
					if g.Bool() {
						var s string
						s, bs = num(g)
						if bs == 0 {
							s, bs = "2", 2
						}
						opt = append(opt, fmt.Sprintf("BSCALE  = %20s", s))
					}
					exact = false
				}
				filler := g.Pick(3, 1) * g.Int(0, 60) // push keywords into later header blocks
				for i := 0; i < filler; i++ {
					opt = append(opt, fmt.Sprintf("FILL%-4d= %20d / filler", i, i))
				}
				for i, j := range g.Perm(len(opt)) {
					_ = i
					cards = append(cards, opt[j])
				}
				b := fx.Header(cards)
				hl := len(b)
				s := g.Stream()
				mode := g.Int(0, 2)
				for i := 0; i < n; i++ {
					b = append(b, raw(s, bitpix, mode)...)
				}
				if g.Bool() {
					b = fx.Pad(b)
				}
				t.Desc("BITPIX %d axes %v %v mode %d stored %x", bitpix, axes, opt[:min(len(opt), 3)], mode, b[hl:min(len(b), hl+32)])
				t.Class("BITPIX %d", bitpix)
				if n == 1 {
					t.Trivial()
				}
				f := readVia(g, t, b, true)
				if len(f.Naxisn) != len(axes) {
					t.Fail("axes %v", f.Naxisn)
				}
				for i := range axes {
					if int(f.Naxisn[i]) != axes[i] {
						t.Fail("axes %v", f.Naxisn)
					}
				}
				if len(f.Data) != n || int(f.Pixels) != n {
					t.Fail("%d pixels", len(f.Data))
				}
				for i := 0; i < n; i++ {
					p := b[hl+i*w:]
					var v float64
					switch bitpix {
					case 8:
						v = float64(p[0])
					case 16:
						v = float64(int16(binary.BigEndian.Uint16(p)))
					case 32:
						v = float64(int32(binary.BigEndian.Uint32(p)))
					case 64:
						v = float64(int64(binary.BigEndian.Uint64(p)))
					case -32:
						v = float64(math.Float32frombits(binary.BigEndian.Uint32(p)))
					default:
						v = math.Float64frombits(binary.BigEndian.Uint64(p))
					}
					want := bs*v + bz
					got := float64(f.Data[i])*float64(f.Bscale) + float64(f.Bzero)
					tol := 6e-8 * 1.01 * math.Abs(want) // rounding of the result
					if tol < 1.5e-45 {
						tol = 1.5e-45
					}
					if bitpix == 64 {
						tol += 4.5e-16 * (math.Abs(v) + math.Abs(bz))
					}
					if !exact {
						tol += 4 * 6e-8 * (math.Abs(bs*v) + math.Abs(bz))
					}
					if math.IsNaN(want) != math.IsNaN(got) || math.Abs(got-want) > tol && !math.IsInf(want, 0) || math.IsInf(want, 0) && got != want {
						t.Fail("pixel %d of %d is %g want %g (stored %g)", i, n, got, want, v)
					}
				}
				if g.Chance(1, 3) {
					resave(t, f)
				}
			}},
		&vk.Law{Name: "header", Quick: 20000, Thorough: 400000, Rule: "headers of 0-80 cards: logical, integer, float, string, continued string, undefined, complex, HISTORY, COMMENT, blank and unknown cards, fixed and free format, with and without comments, in random order; every value must be available under its keyword; non-trivial if at least one value card",
			Run: header},
	)
}

// resave saves an image that has been read, and reads it back: pixels, exposure and keywords must be the same as before.
func resave(t *vk.T, f *fits.Image) {
	t.Class("saved again")
	type want struct {
		b bool
		n float64
		s string
	}
	wants := map[string]want{}
	for k, v := range f.Header.Bools {
		wants[k] = want{b: v}
	}
	for k, v := range f.Header.Ints {
		wants[k] = want{n: float64(v)}
	}
	for k, v := range f.Header.Floats {
		wants[k] = want{n: float64(v)}
	}
	for k, v := range f.Header.Strings {
		wants[k] = want{s: strings.TrimRight(v, " ")}
	}
	delete(wants, "PROGRAM")
	delete(wants, "CREATOR")
	delete(wants, "EXPTIME") // besides EXPOSURE
	data, axes, exp := append([]float32{}, f.Data...), append([]int32{}, f.Naxisn...), f.Exposure
	var b bytes.Buffer
	if err := f.Write(&b); err != nil {
		t.Fail("saving what has been read: %v", err)
	}
	r := fits.NewImage()
	if err := r.Read(bytes.NewReader(b.Bytes()), true, io.Discard); err != nil {
		t.Fail("reading what has been saved again: %v", err)
	}
	if !fits.EqualInt32Slice(axes, r.Naxisn) || len(r.Data) != len(data) || r.Exposure != exp {
		t.Fail("axes %v exposure %g saved again become %v and %g", axes, exp, r.Naxisn, r.Exposure)
	}
	for i, v := range data {
		if v != v {
			v = 0
		}
		if r.Data[i] != v {
			t.Fail("pixel %d is %g, saved again %g", i, data[i], r.Data[i])
		}
	}
	for k, v := range wants {
		w := want{b: r.Header.Bools[k], n: float64(r.Header.Ints[k]), s: strings.TrimRight(r.Header.Strings[k], " ")}
		if x, ok := r.Header.Floats[k]; ok {
			w.n = float64(x)
		}
		if w != v {
			t.Fail("%s is %+v, saved again %+v", k, v, w)
		}
	}
}

func text(g *vk.G, max int) string {
	n := g.Size(0, max)
	b := make([]byte, n)
	mode := g.Int(0, 2)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.Int('a', 'z'))
		case 1:
			b[i] = "'& /=TF1."[g.Int(0, 8)]
		default:
			b[i] = byte(g.Int(32, 126))
		}
	}
	return string(b)
}

func header(g *vk.G, t *vk.T) {
	used := map[string]bool{"END": true, "HISTORY": true, "COMMENT": true, "CONTINUE": true, "SIMPLE": true, "BITPIX": true, "NAXIS": true, "BZERO": true, "BSCALE": true, "EXPOSURE": true, "EXPTIME": true, "BLANK": true, "HIERARCH": true}
	key := func() string {
		for {
			b := make([]byte, g.Int(1, 8))
			const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
			for i := range b {
				b[i] = al[g.Int(0, len(al)-1)]
			}
			if k := string(b); !used[k] && !strings.HasPrefix(k, "NAXIS") {
				used[k] = true
				return k
			}
		}
	}
	var cards []string
	wantB, wantN, wantS := map[string]bool{}, map[string]float64{}, map[string]string{}
	var wantHist, wantComm []string
	// finish adds an optional comment to a value card
	finish := func(c string) {
		if g.Bool() && len(c) < 70 {
			c += strings.Repeat(" ", g.Int(0, 2)) + "/" + text(g, 79-len(c)-3)
		}
		cards = append(cards, c)
	}
	start := func(k, v string, fixed bool) string {
		if fixed {
			return fmt.Sprintf("%-8s= %20s", k, v)
		}
		return fmt.Sprintf("%-8s= %s%s", k, strings.Repeat(" ", g.Int(0, 12)), v)
	}
	exposure := math.NaN()
	n := g.Size(0, 80)
	for i := 0; i < n; i++ {
		switch g.Pick(3, 3, 3, 4, 3, 2, 2, 1, 1, 1, 1, 1) {
		case 0:
			k := key()
			wantB[k] = g.Bool()
			finish(start(k, map[bool]string{true: "T", false: "F"}[wantB[k]], g.Bool()))
		case 1:
			k := key()
			var v int64
			switch g.Pick(3, 2, 2) {
			case 0:
				v = int64(g.Int(-1000, 1000))
			case 1:
				v = int64(int32(g.U32()))
			default:
				v = int64(g.U64()) >> uint(g.Int(0, 31))
			}
			s := strconv.FormatInt(v, 10)
			if g.Chance(1, 6) && v >= 0 {
				s = vk.OneOf(g, "+", "00", "+0") + s
			}
			wantN[k] = float64(v)
			finish(start(k, s, g.Bool()))
		case 2:
			k := key()
			m := strconv.FormatFloat(math.Abs(g.Float(-1, 1)*math.Pow(10, float64(g.Int(-4, 6)))), 'f', g.Int(0, 8), 64)
			switch g.Pick(4, 1, 1, 1) {
			case 1:
				m = strings.TrimPrefix(m, "0")
			case 2:
				m = strings.SplitN(m, ".", 2)[0] + "."
			case 3:
				m = strings.SplitN(m, ".", 2)[0]
			}
			if m == "" || m == "." {
				m = "0."
			}
			s := vk.OneOf(g, "", "-", "+") + m
			hasExp := g.Bool()
			if hasExp {
				s += vk.OneOf(g, "E", "D") + vk.OneOf(g, "", "+", "-") + strconv.Itoa(g.Int(0, 25))
			}
			wantN[k], _ = strconv.ParseFloat(strings.Replace(s, "D", "E", 1), 64)
			finish(start(k, s, g.Bool()))
		case 3:
			k := key()
			v := text(g, 60)
			q := "'" + strings.Replace(v, "'", "''", -1) + "'"
			if len(q) > 68 || strings.HasSuffix(v, "&") {
				v, q = "short", "'short'"
			}
			if len(q) < 10 && g.Bool() { // padded to 8 characters
				q = q[:len(q)-1] + strings.Repeat(" ", 10-len(q)) + "'"
			}
			wantS[k] = v
			c := fmt.Sprintf("%-8s= %s", k, q)
			if g.Chance(1, 5) && len(q) < 60 {
				c = fmt.Sprintf("%-8s=   %s", k, q)
			}
			finish(c)
		case 4: // continued string
			k := key()
			full := ""
			parts := g.Int(2, 5)
			for p := 0; p < parts; p++ {
				v := text(g, 50)
				q := strings.Replace(v, "'", "''", -1)
				if len(q) > 66 {
					v, q = "x", "x"
				}
				amp := "&"
				if p == parts-1 {
					amp = ""
					for strings.HasSuffix(v, "&") {
						v, q = v[:len(v)-1], q[:len(q)-1]
					}
				}
				full += v
				if p == 0 {
					finish(fmt.Sprintf("%-8s= '%s%s'", k, q, amp))
				} else {
					finish(fmt.Sprintf("CONTINUE  '%s%s'", q, amp))
				}
			}
			wantS[k] = full
		case 5:
			v := text(g, 70)
			wantHist = append(wantHist, v)
			cards = append(cards, "HISTORY "+v)
		case 6:
			v := text(g, 70)
			wantComm = append(wantComm, v)
			cards = append(cards, "COMMENT "+v)
		case 7:
			cards = append(cards, "")
		case 8: // undefined value
			finish(fmt.Sprintf("%-8s= %20s", key(), ""))
		case 9: // complex
			finish(fmt.Sprintf("%-8s= (%d, %d)", key(), g.Int(0, 9), g.Int(0, 9)))
		case 10:
			cards = append(cards, fmt.Sprintf("HIERARCH ESO TEL %s = %d / unknown convention", key(), g.Int(0, 99)))
		case 11:
			k := vk.OneOf(g, "EXPTIME", "EXPOSURE")
			if !math.IsNaN(exposure) {
				continue
			}
			s, v := num(g)
			exposure = v
			finish(fmt.Sprintf("%-8s= %20s", k, s))
		}
	}
	t.Desc("%d cards %q", len(cards), cards[:min(len(cards), 12)])
	t.Class("%d header blocks", (len(cards)+5+35)/36)
	if len(wantB)+len(wantN)+len(wantS) == 0 {
		t.Trivial()
	}
	all := append(fx.Mandatory(8, []int{1}), cards...)
	b := fx.Pad(append(fx.Header(all), 42))
	if _, err := fx.Parse(b); err != nil && !strings.Contains(err.Error(), "not a standard value") && !strings.Contains(err.Error(), "neither value") {
		panic("generator made a non-standard header: " + err.Error())
	}
	data := g.Bool()
	f := readVia(g, t, b, data)
	for k, v := range wantB {
		if w, ok := f.Header.Bools[k]; !ok || w != v {
			t.Fail("%s is %v (present %v) want %v", k, w, ok, v)
		}
	}
	for k, v := range wantN {
		if i, ok := f.Header.Ints[k]; ok {
			if float64(i) != v {
				t.Fail("%s is integer %d want %g", k, i, v)
			}
		} else if x, ok := f.Header.Floats[k]; ok {
			exactInt := v == math.Trunc(v) && math.Abs(v) < 1<<24
			if !vk.Close(float64(x), v, 1e-44, 1.3e-7) || exactInt && float64(x) != v {
				t.Fail("%s is float %g want %g", k, x, v)
			}
		} else {
			t.Fail("%s is missing, want %g", k, v)
		}
	}
	for k, v := range wantS {
		if w, ok := f.Header.Strings[k]; !ok || strings.TrimRight(w, " ") != strings.TrimRight(v, " ") {
			t.Fail("%s is %q (present %v) want %q", k, w, ok, v)
		}
	}
	lines := func(what string, got, want []string) {
		if len(got) != len(want) {
			t.Fail("%s has %d lines %q want %d %q", what, len(got), got, len(want), want)
		}
		for i := range got {
			if strings.Trim(got[i], " ") != strings.Trim(want[i], " ") {
				t.Fail("%s line %d is %q want %q", what, i, got[i], want[i])
			}
		}
	}
	lines("HISTORY", f.Header.History, wantHist)
	lines("COMMENT", f.Header.Comments, wantComm)
	if !math.IsNaN(exposure) && !vk.Close(float64(f.Exposure), exposure, 1e-44, 1.3e-7) {
		t.Fail("exposure is %g want %g", f.Exposure, exposure)
	}
	if math.IsNaN(exposure) && f.Exposure != 0 {
		t.Fail("exposure is %g without such a keyword", f.Exposure)
	}
	if len(f.Naxisn) != 1 || f.Naxisn[0] != 1 {
		t.Fail("axes %v", f.Naxisn)
	}
	if data {
		if f.Data[0] != 42 {
			t.Fail("pixel is %g, want 42", f.Data[0])
		}
		resave(t, f)
	}
}
