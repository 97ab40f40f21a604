// Package fx is an independent reader and writer for FITS, used as oracle. It follows FITS standard 4.0
// strictly and shares no code with the program under test.
package fx

import (
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// Value of a keyword.
type Value struct {
	Kind byte // b, i, f, s, n (no value), x (other, e.g. complex)
	B    bool
	I    int64
	F    float64
	S    string
}

// File is a parsed single-HDU FITS file.
type File struct {
	Keys    []string // value keywords in order of appearance
	Vals    map[string]Value
	History []string
	Comment []string
	Bitpix  int
	Axes    []int
	HdrLen  int
	Raw     []byte // data bytes without padding
}

var reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
var reFloat = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([ED][+-]?[0-9]+)?$`)
var reKey = regexp.MustCompile(`^[A-Z0-9_-]+ *$`)

func quoted(s string) (val string, rest string, err error) {
	// s starts with a quote
	i := 1
	var b strings.Builder
	for {
		if i >= len(s) {
			return "", "", fmt.Errorf("unterminated string %q", s)
		}
		if s[i] == '\'' {
			if i+1 < len(s) && s[i+1] == '\'' {
				b.WriteByte('\'')
				i += 2
				continue
			}
			return b.String(), s[i+1:], nil
		}
		b.WriteByte(s[i])
		i++
	}
}

func parseValue(s string) (Value, error) {
	t := strings.TrimLeft(s, " ")
	if strings.HasPrefix(t, "'") {
		v, rest, err := quoted(t)
		if err != nil {
			return Value{}, err
		}
		r := strings.TrimLeft(rest, " ")
		if r != "" && r[0] != '/' {
			return Value{}, fmt.Errorf("junk after string: %q", rest)
		}
		// trailing blanks are not significant, unless the string consists of blanks only
		return Value{Kind: 's', S: v}, nil
	}
	if k := strings.IndexByte(t, '/'); k >= 0 {
		t = t[:k]
	}
	t = strings.TrimRight(t, " ")
	switch {
	case t == "":
		return Value{Kind: 'n'}, nil
	case t == "T" || t == "F":
		return Value{Kind: 'b', B: t == "T"}, nil
	case reInt.MatchString(t):
		v, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			f, err2 := strconv.ParseFloat(t, 64)
			return Value{Kind: 'f', F: f}, err2
		}
		return Value{Kind: 'i', I: v, F: float64(v)}, nil
	case reFloat.MatchString(t):
		f, err := strconv.ParseFloat(strings.Replace(t, "D", "E", 1), 64)
		return Value{Kind: 'f', F: f}, err
	}
	return Value{}, fmt.Errorf("not a standard value: %q", t)
}

// Parse parses and validates. Any violation of the standard is an error.
func Parse(b []byte) (*File, error) {
	f := &File{Vals: map[string]Value{}}
	if len(b) == 0 || len(b)%2880 != 0 {
		return nil, fmt.Errorf("file length %d is not a positive multiple of 2880", len(b))
	}
	end := -1
	lastStr := ""
	for c := 0; (c+1)*80 <= len(b); c++ {
		card := string(b[c*80 : c*80+80])
		for i := 0; i < 80; i++ {
			if card[i] < 0x20 || card[i] > 0x7e {
				return nil, fmt.Errorf("card %d has byte %#x in column %d: %q", c, card[i], i+1, card)
			}
		}
		key, rest := card[:8], card[8:]
		if strings.TrimRight(card, " ") == "END" {
			end = c
			break
		}
		k := strings.TrimRight(key, " ")
		if k == "CONTINUE" && rest[:2] != "= " {
			if lastStr == "" || !strings.HasSuffix(f.Vals[lastStr].S, "&") {
				return nil, fmt.Errorf("card %d: CONTINUE without a preceding string ending in &", c)
			}
			v, err := parseValue(rest)
			if err != nil || v.Kind != 's' {
				return nil, fmt.Errorf("card %d: bad CONTINUE card %q: %v", c, card, err)
			}
			x := f.Vals[lastStr]
			x.S = strings.TrimSuffix(x.S, "&") + v.S
			f.Vals[lastStr] = x
			continue
		}
		switch {
		case strings.TrimSpace(card) == "":
		case k == "HISTORY":
			f.History = append(f.History, rest)
		case k == "COMMENT":
			f.Comment = append(f.Comment, rest)
		case k == "":
			// commentary with blank keyword
		case rest[:2] == "= ":
			if !reKey.MatchString(key) {
				return nil, fmt.Errorf("card %d: bad keyword %q", c, key)
			}
			v, err := parseValue(rest[2:])
			if err != nil {
				return nil, fmt.Errorf("card %d (%s): %v", c, k, err)
			}
			if _, dup := f.Vals[k]; dup {
				return nil, fmt.Errorf("card %d: keyword %s appears twice", c, k)
			}
			f.Vals[k] = v
			f.Keys = append(f.Keys, k)
		default:
			return nil, fmt.Errorf("card %d: neither value nor commentary card: %q", c, card)
		}
		lastStr = ""
		if v, ok := f.Vals[k]; ok && v.Kind == 's' {
			lastStr = k
		}
		// mandatory cards, fixed format
		want := ""
		switch c {
		case 0:
			want = "SIMPLE"
		case 1:
			want = "BITPIX"
		case 2:
			want = "NAXIS"
		}
		if f.Vals["NAXIS"].Kind == 'i' && c >= 3 && c < 3+int(f.Vals["NAXIS"].I) {
			want = fmt.Sprintf("NAXIS%d", c-2)
		}
		if want != "" {
			if k != want {
				return nil, fmt.Errorf("card %d is %q, the standard wants %s there", c, k, want)
			}
			v := f.Vals[k]
			if c == 0 && (v.Kind != 'b' || !v.B || card[29] != 'T') || c > 0 && (v.Kind != 'i' || card[29] == ' ') {
				return nil, fmt.Errorf("mandatory card %d not in fixed format: %q", c, card)
			}
		}
	}
	if end < 0 {
		return nil, fmt.Errorf("no END card")
	}
	f.HdrLen = ((end + 36) / 36) * 2880
	if f.HdrLen > len(b) {
		return nil, fmt.Errorf("header not padded")
	}
	for i := (end + 1) * 80; i < f.HdrLen; i++ {
		if b[i] != ' ' {
			return nil, fmt.Errorf("header padding byte %d is %#x", i, b[i])
		}
	}
	f.Bitpix = int(f.Vals["BITPIX"].I)
	switch f.Bitpix {
	case 8, 16, 32, 64, -32, -64:
	default:
		return nil, fmt.Errorf("BITPIX %d", f.Bitpix)
	}
	n := 1
	for i := int64(1); i <= f.Vals["NAXIS"].I; i++ {
		a := int(f.Vals[fmt.Sprintf("NAXIS%d", i)].I)
		if a < 0 {
			return nil, fmt.Errorf("NAXIS%d is %d", i, a)
		}
		f.Axes = append(f.Axes, a)
		n *= a
	}
	if len(f.Axes) == 0 {
		n = 0
	}
	bytes := n * abs(f.Bitpix) / 8
	padded := (bytes + 2879) / 2880 * 2880
	if len(b) != f.HdrLen+padded {
		return nil, fmt.Errorf("file has %d bytes, header %d and padded data %d need %d", len(b), f.HdrLen, padded, f.HdrLen+padded)
	}
	f.Raw = b[f.HdrLen : f.HdrLen+bytes]
	for i := f.HdrLen + bytes; i < len(b); i++ {
		if b[i] != 0 {
			return nil, fmt.Errorf("data padding byte %d is %#x, the standard wants zero", i, b[i])
		}
	}
	return f, nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Num returns the numeric value of a keyword.
func (f *File) Num(key string, def float64) float64 {
	v, ok := f.Vals[key]
	if !ok || (v.Kind != 'i' && v.Kind != 'f') {
		return def
	}
	return v.F
}

// Physical returns the physical pixel values in double precision.
func (f *File) Physical() []float64 {
	bz, bs := f.Num("BZERO", 0), f.Num("BSCALE", 1)
	w := abs(f.Bitpix) / 8
	out := make([]float64, len(f.Raw)/w)
	for i := range out {
		p := f.Raw[i*w:]
		var v float64
		switch f.Bitpix {
		case 8:
			v = float64(p[0])
		case 16:
			v = float64(int16(binary.BigEndian.Uint16(p)))
		case 32:
			v = float64(int32(binary.BigEndian.Uint32(p)))
		case 64:
			v = float64(int64(binary.BigEndian.Uint64(p)))
		case -32:
			v = float64(math.Float32frombits(binary.BigEndian.Uint32(p)))
		case -64:
			v = math.Float64frombits(binary.BigEndian.Uint64(p))
		}
		out[i] = bz + bs*v
	}
	return out
}

// Card formats an 80-character card; s is cut or padded.
func Card(s string) string {
	if len(s) > 80 {
		s = s[:80]
	}
	return s + strings.Repeat(" ", 80-len(s))
}

// Header joins cards, appends END and pads.
func Header(cards []string) []byte {
	var b strings.Builder
	for _, c := range cards {
		b.WriteString(Card(c))
	}
	b.WriteString(Card("END"))
	for b.Len()%2880 != 0 {
		b.WriteByte(' ')
	}
	return []byte(b.String())
}

// Mandatory returns the mandatory cards.
func Mandatory(bitpix int, axes []int) []string {
	c := []string{fmt.Sprintf("SIMPLE  = %20s", "T"), fmt.Sprintf("BITPIX  = %20d", bitpix), fmt.Sprintf("NAXIS   = %20d", len(axes))}
	for i, a := range axes {
		c = append(c, fmt.Sprintf("%-8s= %20d", fmt.Sprintf("NAXIS%d", i+1), a))
	}
	return c
}

// Float32Image builds a complete simple 32-bit float FITS file.
func Float32Image(axes []int, data []float32, extra ...string) []byte {
	b := Header(append(Mandatory(-32, axes), extra...))
	for _, v := range data {
		b = binary.BigEndian.AppendUint32(b, math.Float32bits(v))
	}
	return Pad(b)
}

// Pad pads with zero bytes to the block size.
func Pad(b []byte) []byte {
	for len(b)%2880 != 0 {
		b = append(b, 0)
	}
	return b
}
