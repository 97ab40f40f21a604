// F03: malformed input.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/verif/fx"
	"github.com/mlnoga/nightlight/verif/vk"
	"golang.org/x/image/tiff"
)

// success checks what an accepted file must look like. avail is the number of bytes offered.
func success(t *vk.T, f *fits.Image, avail int64) {
	n := int64(1)
	for _, a := range f.Naxisn {
		if a < 0 {
			t.Fail("accepted with negative extent %v", f.Naxisn)
		}
		n *= int64(a)
		if n > math.MaxInt32 {
			t.Fail("accepted with %v pixels", f.Naxisn)
		}
	}
	if len(f.Naxisn) == 0 {
		t.Fail("accepted without axes")
	}
	if int64(len(f.Data)) != n || int64(f.Pixels) != n {
		t.Fail("accepted with %d data values, %d pixels for axes %v", len(f.Data), f.Pixels, f.Naxisn)
	}
	bp := int64(f.Bitpix)
	if bp < 0 {
		bp = -bp
	}
	if avail >= 0 && 2880+n*bp/8 > avail {
		t.Fail("accepted although axes %v with %d bits need at least %d bytes and only %d were offered", f.Naxisn, f.Bitpix, 2880+n*bp/8, avail)
	}
}

func readFITS(g *vk.G, t *vk.T, b []byte) (*fits.Image, error) {
	if g.Chance(1, 3) {
		name := vk.OneOf(g, "x.fits", "x.fits.gz")
		out := b
		if strings.HasSuffix(name, "gz") {
			var z bytes.Buffer
			w := gzip.NewWriter(&z)
			w.Write(b)
			w.Close()
			out = z.Bytes()
		}
		path := filepath.Join(t.Dir, name)
		os.WriteFile(path, out, 0644)
		defer os.Remove(path)
		return fits.NewImageFromFile(path, 0, io.Discard)
	}
	f := fits.NewImage()
	err := f.Read(bytes.NewReader(b), true, io.Discard)
	return f, err
}

// weird is a header number that stresses size arithmetic, without asking for gigabytes of memory.
func weird(g *vk.G) string {
	return vk.OneOf(g, "0", "1", "-1", "2", "3", "7", "999", "1000", "1001", "-2147483648", "2147483648", "4294967296", "4294967297", "65536", "65537", "99999999999", "9223372036854775807", "9223372036854775808",
		"1.0", "2.5", "T", "'2'", "", "1E2", "46341", "1290")
}

func small(axes []int64) bool {
	n, over := int64(1), false
	for _, a := range axes {
		if a < 0 {
			return true
		}
		n *= a
		if n > math.MaxInt32 {
			over = true
			n = 1 << 40
		}
		if n == 0 {
			return true
		}
	}
	return over || n < 1<<24
}

func main() {
	vk.Main("F03", []string{"no case asks for an image of 2^24 to 2^31 pixels, so that the check fits into memory"},
		&vk.Law{Name: "fits-truncated", Quick: 6000, Thorough: 150000, Timeout: 30 * time.Second, Rule: "valid files of every encoding cut short at any byte: an error when the header or any pixel is missing, success otherwise (missing padding is allowed); plain, gzip and cut gzip streams; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				bitpix := vk.OneOf(g, 16, 8, 32, 64, -32, -64)
				w := bitpix / 8
				if w < 0 {
					w = -w
				}
				var axes []int
				n := 1
				for i, k := 0, g.Int(1, 3); i < k; i++ {
					a := 1 + g.Size(0, []int{3000, 30, 3}[i])
					axes = append(axes, a)
					n *= a
				}
				cards := fx.Mandatory(bitpix, axes)
				for i, k := 0, g.Pick(3, 1)*g.Int(0, 50); i < k; i++ {
					cards = append(cards, fmt.Sprintf("K%-7d= %20d", i, i))
				}
				b := fx.Header(cards)
				hl := len(b)
				s := g.Stream()
				for i := 0; i < n*w; i++ {
					b = append(b, byte(s.U64()))
				}
				need := len(b)
				b = fx.Pad(b)
				cut := 0
				switch g.Pick(2, 3, 2, 1) {
				case 0:
					cut = g.Int(0, len(b))
				case 1:
					cut = need + g.Int(-9, 9)
				case 2:
					cut = hl + g.Int(-9, 9)
				default:
					cut = hl + (need-hl)/16384*16384 + g.Int(-9, 9)
				}
				cut = max(0, min(cut, len(b)))
				t.Desc("BITPIX %d axes %v header %d bytes, data needs %d, cut at %d", bitpix, axes, hl, need, cut)
				ok := cut >= need
				t.Class("complete %v", ok)
				if g.Chance(1, 4) { // cut in the compressed stream
					var z bytes.Buffer
					zw := gzip.NewWriter(&z)
					zw.Write(b)
					zw.Close()
					zc := g.Int(0, z.Len()-1)
					path := filepath.Join(t.Dir, "t.fits.gz")
					os.WriteFile(path, z.Bytes()[:zc], 0644)
					defer os.Remove(path)
					f, err := fits.NewImageFromFile(path, 0, io.Discard)
					if err == nil {
						// everything needed may have been delivered before the cut
						r, _ := gzip.NewReader(bytes.NewReader(z.Bytes()[:zc]))
						got := 0
						if r != nil {
							d, _ := io.ReadAll(r)
							got = len(d)
						}
						if got < need {
							t.Fail("compressed file cut at %d of %d (delivering %d of %d bytes) accepted", zc, z.Len(), got, need)
						}
						success(t, f, -1)
					}
					return
				}
				f, err := readFITS(g, t, b[:cut])
				if ok && err != nil {
					t.Fail("complete file refused: %v", err)
				}
				if !ok && err == nil {
					t.Fail("cut file accepted")
				}
				if ok {
					success(t, f, int64(cut))
				}
			}},
		&vk.Law{Name: "fits-header", Quick: 12000, Thorough: 400000, Timeout: 30 * time.Second, Rule: "headers whose mandatory and scaling cards are altered, missing, duplicated, reordered, of wrong type or out of range; followed by generated data; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				type card struct{ k, v string }
				cs := []card{{"SIMPLE", "T"}, {"BITPIX", vk.OneOf(g, "16", "8", "32", "64", "-32", "-64")}}
				k := g.Int(0, 4)
				cs = append(cs, card{"NAXIS", fmt.Sprint(k)})
				for i := 1; i <= k; i++ {
					cs = append(cs, card{fmt.Sprintf("NAXIS%d", i), fmt.Sprint(g.Int(1, 9))})
				}
				cs = append(cs, card{"BZERO", "32768"}, card{"BSCALE", "1.5"}, card{"EXPTIME", "60"})
				for i, m := 0, g.Int(0, 4); i < m; i++ {
					j := g.Int(0, len(cs)-1)
					switch g.Pick(4, 1, 1, 1) {
					case 0:
						cs[j].v = weird(g)
					case 1:
						if len(cs) > 1 {
							cs = append(cs[:j], cs[j+1:]...)
						}
					case 2:
						cs = append(cs, cs[j])
					default:
						l := g.Int(0, len(cs)-1)
						cs[j], cs[l] = cs[l], cs[j]
					}
				}
				var lines []string
				// effective extents, as far as they matter for memory: the last card wins
				eff := map[string]int64{}
				for _, c := range cs {
					lines = append(lines, fmt.Sprintf("%-8s= %20s", c.k, c.v))
					var v int64
					if _, err := fmt.Sscanf(c.v, "%d", &v); err == nil {
						eff[c.k] = v
					} else {
						eff[c.k] = math.MaxInt64 / 4
					}
				}
				var ax []int64
				for i := int64(1); i <= eff["NAXIS"] && i <= 10; i++ {
					a := eff[fmt.Sprintf("NAXIS%d", i)]
					if a == 0 {
						continue
					}
					// the reader may truncate large numbers, so guard against either reading
					ax = append(ax, a)
				}
				if !small(ax) {
					t.Discard("large image")
				}
				b := fx.Header(lines)
				s := g.Stream()
				for i, k := 0, g.Size(0, 9000); i < k; i++ {
					b = append(b, byte(s.U64()))
				}
				t.Desc("cards %q data %d bytes", cs, len(b))
				f, err := readFITS(g, t, b)
				t.Class("accepted %v", err == nil)
				if err == nil {
					success(t, f, int64(len(b)))
				}
			}},
		&vk.Law{Name: "fits-bytes", Quick: 8000, Thorough: 300000, Timeout: 30 * time.Second, Rule: "valid files with flipped, deleted, inserted and overwritten bytes, and arbitrary bytes; all non-trivial",
			Run: func(g *vk.G, t *vk.T) {
				var b []byte
				if g.Chance(1, 8) {
					s := g.Stream()
					b = make([]byte, g.Size(0, 9000))
					for i := range b {
						b[i] = byte(s.U64())
					}
					t.Desc("%d arbitrary bytes", len(b))
				} else {
					d := make([]float32, 9*7)
					b = fx.Float32Image([]int{9, 7}, d, "BZERO   =                  1.5", "OBJECT  = 'M31'                / name", "EXPTIME =                 60.0", "DATE-OBS= '2020-01-01T00:00:00'", "COMMENT text")
					edits := ""
					for i, m := 0, g.Int(1, 6); i < m; i++ {
						p := g.Int(0, min(len(b), 900)-1)
						if g.Chance(1, 8) {
							p = g.Int(0, len(b)-1)
						}
						switch g.Pick(4, 2, 1, 1) {
						case 0:
							b[p] = byte(g.Int(32, 126))
							edits += fmt.Sprintf("set %d to %q; ", p, b[p])
						case 1:
							b[p] ^= 1 << uint(g.Int(0, 7))
							edits += fmt.Sprintf("flip %d; ", p)
						case 2:
							b = append(b[:p], b[p+1:]...)
							edits += fmt.Sprintf("delete %d; ", p)
						default:
							b = append(b[:p], append([]byte{byte(g.Int(0, 255))}, b[p:]...)...)
							edits += fmt.Sprintf("insert at %d; ", p)
						}
					}
					t.Desc("%s", edits)
				}
				// do not let digits written into the extents ask for gigabytes
				if len(b) > 400 && bytes.ContainsAny(b[240:400], "3456789") {
					x := bytes.Fields(bytes.ReplaceAll(b[240:400], []byte("/"), []byte(" ")))
					for _, w := range x {
						if len(w) > 5 && bytes.ContainsAny(w, "0123456789") && w[0] != 'N' {
							t.Discard("large image")
						}
					}
				}
				f, err := readFITS(g, t, b)
				t.Class("accepted %v", err == nil)
				if err == nil {
					success(t, f, int64(len(b)))
				}
			}},
		&vk.Law{Name: "tiff", Quick: 1500, Thorough: 100000, Timeout: 30 * time.Second, Rule: "TIFF files of every sample format the decoder knows (gray, RGB, alpha, paletted, 8 and 16 bit), intact, truncated, or with altered bytes; non-trivial if not intact",
			Run: func(g *vk.G, t *vk.T) {
				w, h := g.Int(1, 12), g.Int(1, 12)
				r := image.Rect(0, 0, w, h)
				kind := g.Int(0, 6)
				var im image.Image
				s := g.Stream()
				fill := func(p []byte) {
					for i := range p {
						p[i] = byte(s.U64())
					}
				}
				switch kind {
				case 0:
					x := image.NewGray16(r)
					fill(x.Pix)
					im = x
				case 1:
					x := image.NewRGBA64(r)
					fill(x.Pix)
					im = x
				case 2:
					x := image.NewGray(r)
					fill(x.Pix)
					im = x
				case 3:
					x := image.NewRGBA(r)
					fill(x.Pix)
					im = x
				case 4:
					x := image.NewNRGBA(r)
					fill(x.Pix)
					im = x
				case 5:
					x := image.NewNRGBA64(r)
					fill(x.Pix)
					im = x
				default:
					x := image.NewPaletted(r, color.Palette{color.Black, color.White, color.RGBA{9, 8, 7, 255}})
					for i := range x.Pix {
						x.Pix[i] = byte(s.Int(0, 2))
					}
					im = x
				}
				var bb bytes.Buffer
				opt := &tiff.Options{Compression: vk.OneOf(g, tiff.Uncompressed, tiff.Deflate)}
				if err := tiff.Encode(&bb, im, opt); err != nil {
					t.Discard("encoder refuses")
				}
				b := bb.Bytes()
				edits := ""
				switch g.Pick(1, 2, 4) {
				case 0:
					t.Trivial()
				case 1:
					b = b[:g.Int(0, len(b)-1)]
					edits = fmt.Sprintf("cut to %d", len(b))
				default:
					for i, m := 0, g.Int(1, 4); i < m; i++ {
						p := g.Int(0, len(b)-1)
						if ifd := int(binary.LittleEndian.Uint32(bb.Bytes()[4:])); g.Bool() && ifd < len(b) {
							p = g.Int(ifd, len(b)-1)
						}
						b[p] = byte(g.Int(0, 255))
						edits += fmt.Sprintf("set %d to %d; ", p, b[p])
					}
				}
				t.Desc("kind %d %dx%d %s", kind, w, h, edits)
				t.Class("kind %d", kind)
				// the decoder library allocates what the header declares
				if c, err := tiff.DecodeConfig(bytes.NewReader(b)); err == nil && c.Width*c.Height > 1<<14 {
					t.Discard("large image")
				}
				path := filepath.Join(t.Dir, vk.OneOf(g, "x.tif", "x.TIFF"))
				os.WriteFile(path, b, 0644)
				defer os.Remove(path)
				f, err := fits.NewImageFromFile(path, 0, io.Discard)
				t.Class("accepted %v", err == nil)
				if err == nil {
					success(t, f, -1)
				}
				if edits == "" && err != nil && kind < 6 {
					t.Fail("intact file refused: %v", err)
				}
			}},
		&vk.Law{Name: "tiff-truncated", Quick: 2000, Thorough: 50000, Rule: "uncompressed TIFF files whose directory precedes the pixel strips, cut at any byte; anything short of the last pixel must be refused; non-trivial if cut within the pixels",
			Run: func(g *vk.G, t *vk.T) {
				w, h, rows := g.Int(1, 20), g.Int(1, 20), g.Int(1, 20)
				samples := vk.OneOf(g, 1, 3)
				bits := vk.OneOf(g, 8, 16)
				strips := (h + rows - 1) / rows
				rowBytes := w * samples * bits / 8
				type ent struct {
					tag, typ uint16
					n, v     uint32
				}
				photo := uint32(1)
				if samples == 3 {
					photo = 2
				}
				var ents []ent
				extra := 8 + 2 + 10*12 + 4 // values that do not fit go after the directory
				var tail []byte
				put := func(tag, typ uint16, vals ...uint32) {
					size := 2
					if typ == 4 {
						size = 4
					}
					if len(vals)*size <= 4 {
						v := vals[0]
						if typ == 3 && len(vals) == 2 {
							v |= vals[1] << 16
						}
						ents = append(ents, ent{tag, typ, uint32(len(vals)), v})
						return
					}
					ents = append(ents, ent{tag, typ, uint32(len(vals)), uint32(extra + len(tail))})
					for _, v := range vals {
						if size == 2 {
							tail = binary.LittleEndian.AppendUint16(tail, uint16(v))
						} else {
							tail = binary.LittleEndian.AppendUint32(tail, v)
						}
					}
				}
				bps := make([]uint32, samples)
				for i := range bps {
					bps[i] = uint32(bits)
				}
				dataAt := uint32(extra + 6 + 8*strips)
				offs, counts := make([]uint32, strips), make([]uint32, strips)
				for i := range offs {
					n := rows
					if i == strips-1 {
						n = h - rows*(strips-1)
					}
					offs[i], counts[i] = dataAt+uint32(i*rows*rowBytes), uint32(n*rowBytes)
				}
				put(256, 3, uint32(w))
				put(257, 3, uint32(h))
				put(258, 3, bps...)
				put(259, 3, 1)
				put(262, 3, photo)
				put(273, 4, offs...)
				put(277, 3, uint32(samples))
				put(278, 3, uint32(rows))
				put(279, 4, counts...)
				put(284, 3, 1)
				b := []byte{'I', 'I', 42, 0, 8, 0, 0, 0, byte(len(ents)), 0}
				for _, e := range ents {
					b = binary.LittleEndian.AppendUint16(b, e.tag)
					b = binary.LittleEndian.AppendUint16(b, e.typ)
					b = binary.LittleEndian.AppendUint32(b, e.n)
					b = binary.LittleEndian.AppendUint32(b, e.v)
				}
				b = append(b, 0, 0, 0, 0)
				b = append(b, tail...)
				for len(b) < int(dataAt) {
					b = append(b, 0)
				}
				s := g.Stream()
				for i := 0; i < h*rowBytes; i++ {
					b = append(b, byte(s.U64()))
				}
				cut := len(b) - g.Size(0, h*rowBytes+20)
				cut = max(cut, 0)
				t.Desc("%dx%d %d samples of %d bits, %d rows per strip, cut to %d of %d", w, h, samples, bits, rows, cut, len(b))
				t.Class("complete %v", cut == len(b))
				if cut == len(b) || cut < int(dataAt) {
					t.Trivial()
				}
				path := filepath.Join(t.Dir, "c.tif")
				os.WriteFile(path, b[:cut], 0644)
				defer os.Remove(path)
				f, err := fits.NewImageFromFile(path, 0, io.Discard)
				if cut == len(b) && err != nil {
					t.Fail("complete file refused: %v", err)
				}
				if cut < len(b) && err == nil {
					t.Fail("cut file accepted")
				}
				if err != nil {
					return
				}
				success(t, f, -1)
				at := func(c, y, x int) float32 {
					i := y*rowBytes + (x*samples+c)*bits/8 + int(dataAt)
					if bits == 8 {
						return float32(b[i])
					}
					return float32(binary.LittleEndian.Uint16(b[i:]))
				}
				for c := 0; c < samples; c++ {
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							if got := f.Data[(c*h+y)*w+x]; got != at(c, y, x) {
								t.Fail("sample %d,%d,%d is %g want %g", c, y, x, got, at(c, y, x))
							}
						}
					}
				}
			}},
	)
}
