//go:build go1.21

package gotables

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of encoding/json, which stands in for it under the engine: RFC 8259 with the package's documented
// treatment of numbers, invalid UTF-8 and lone surrogates. Native replays use the real package.

type vzJSONp struct {
	s       string
	i       int
	numbers bool // keep numbers as json.Number
	depth   int
}

var vzJSONerr = errors.New("invalid JSON")

type vzJSONd struct {
	p   *vzJSONp
	r   io.Reader
	end bool
}

var vzJSONdecs map[*json.Decoder]*vzJSONd

func vzStub_encoding_json_NewDecoder(r io.Reader) *json.Decoder {
	if vzJSONdecs == nil {
		vzJSONdecs = map[*json.Decoder]*vzJSONd{}
	}
	d := new(json.Decoder)
	vzJSONdecs[d] = &vzJSONd{p: &vzJSONp{}, r: r}
	return d
}

func vzStub___encoding_json_Decoder__UseNumber(d *json.Decoder) { vzJSONdecs[d].p.numbers = true }

func vzStub___encoding_json_Decoder__Decode(d *json.Decoder, v interface{}) error {
	m := vzJSONdecs[d]
	if m.r != nil {
		b, err := io.ReadAll(m.r)
		if err != nil {
			return err
		}
		m.p.s, m.r = string(b), nil
	}
	m.p.space()
	if m.p.i == len(m.p.s) {
		return io.EOF
	}
	got, err := m.p.value()
	if err != nil {
		return err
	}
	return vzJSONput(got, v)
}

func vzStub___encoding_json_Decoder__More(d *json.Decoder) bool {
	m := vzJSONdecs[d]
	m.p.space()
	return m.r != nil || m.p.i < len(m.p.s) && m.p.s[m.p.i] != ']' && m.p.s[m.p.i] != '}'
}

func vzJSONput(got, v interface{}) error {
	switch x := v.(type) {
	case *map[string]interface{}:
		if got == nil {
			*x = nil
			return nil
		}
		m, ok := got.(map[string]interface{})
		if !ok {
			return errors.New("not a JSON object")
		}
		if *x == nil {
			*x = m
			return nil
		}
		for k, e := range m {
			(*x)[k] = e
		}
	case *interface{}:
		*x = got
	default:
		vzUnmodelled("json: decoding into another type")
	}
	return nil
}

func vzStub_encoding_json_Unmarshal(data []byte, v interface{}) error {
	got, err := vzJSONwhole(string(data), false)
	if err != nil {
		return err
	}
	return vzJSONput(got, v)
}

func vzJSONwhole(s string, numbers bool) (interface{}, error) {
	p := &vzJSONp{s: s, numbers: numbers}
	p.space()
	got, err := p.value()
	if err != nil {
		return nil, err
	}
	p.space()
	if p.i < len(p.s) {
		return nil, vzJSONerr
	}
	return got, nil
}

func vzStub_encoding_json_Valid(data []byte) bool {
	_, err := vzJSONwhole(string(data), true)
	return err == nil
}

func vzStub__encoding_json_Number__String(n json.Number) string { return string(n) }
func vzStub__encoding_json_Number__Float64(n json.Number) (float64, error) {
	return strconv.ParseFloat(string(n), 64)
}
func vzStub__encoding_json_Number__Int64(n json.Number) (int64, error) {
	return strconv.ParseInt(string(n), 10, 64)
}

// Indent: a line per element, nothing inside empty brackets, a space after each colon.
func vzStub_encoding_json_Indent(dst *bytes.Buffer, src []byte, prefix, indent string) error {
	if !vzStub_encoding_json_Valid(src) {
		return vzJSONerr
	}
	s := string(src)
	depth := 0
	in := false
	line := func() {
		dst.WriteByte('\n')
		dst.WriteString(prefix)
		dst.WriteString(strings.Repeat(indent, depth))
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in {
			dst.WriteByte(c)
			if c == '\\' {
				i++
				dst.WriteByte(s[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		switch c {
		case ' ', '\t', '\n', '\r':
		case '"':
			in = true
			dst.WriteByte(c)
		case '{', '[':
			dst.WriteByte(c)
			j := i + 1
			for s[j] == ' ' || s[j] == '\t' || s[j] == '\n' || s[j] == '\r' {
				j++
			}
			if s[j] == '}' || s[j] == ']' {
				i = j
				dst.WriteByte(s[j])
				continue
			}
			depth++
			line()
		case '}', ']':
			depth--
			line()
			dst.WriteByte(c)
		case ',':
			dst.WriteByte(c)
			line()
		case ':':
			dst.WriteByte(c)
			dst.WriteByte(' ')
		default:
			dst.WriteByte(c)
		}
	}
	return nil
}

// Marshal of strings, booleans and integers.
func vzStub_encoding_json_Marshal(v interface{}) ([]byte, error) {
	switch x := v.(type) {
	case string:
		const hex = "0123456789abcdef"
		b := []byte{'"'}
		for i := 0; i < len(x); {
			c := x[i]
			if c < utf8.RuneSelf {
				i++
				switch {
				case c == '"' || c == '\\':
					b = append(b, '\\', c)
				case c == '\b':
					b = append(b, '\\', 'b')
				case c == '\f':
					b = append(b, '\\', 'f')
				case c == '\n':
					b = append(b, '\\', 'n')
				case c == '\r':
					b = append(b, '\\', 'r')
				case c == '\t':
					b = append(b, '\\', 't')
				case c < ' ' || c == '<' || c == '>' || c == '&':
					b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
				default:
					b = append(b, c)
				}
				continue
			}
			r, n := utf8.DecodeRuneInString(x[i:])
			switch {
			case r == utf8.RuneError && n == 1:
				b = append(b, "\ufffd"...)
			case r == 0x2028:
				b = append(b, "\\u2028"...)
			case r == 0x2029:
				b = append(b, "\\u2029"...)
			default:
				b = append(b, x[i:i+n]...)
			}
			i += n
		}
		return append(b, '"'), nil
	case bool:
		return strconv.AppendBool(nil, x), nil
	case int64:
		return strconv.AppendInt(nil, x, 10), nil
	case uint64:
		return strconv.AppendUint(nil, x, 10), nil
	case json.Number:
		return []byte(x), nil
	}
	vzUnmodelled("json: encoding another type")
	return nil, nil
}

func (p *vzJSONp) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\n' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *vzJSONp) word(w string, v interface{}) (interface{}, error) {
	for i := 0; i < len(w); i++ {
		if p.i == len(p.s) || p.s[p.i] != w[i] {
			return nil, vzJSONerr
		}
		p.i++
	}
	return v, nil
}

func (p *vzJSONp) value() (interface{}, error) {
	if p.i == len(p.s) {
		return nil, io.ErrUnexpectedEOF
	}
	c := p.s[p.i]
	switch {
	case c == '"':
		return p.str()
	case c == '{':
		return p.object()
	case c == '[':
		return p.array()
	case c == 't':
		return p.word("true", true)
	case c == 'f':
		return p.word("false", false)
	case c == 'n':
		return p.word("null", nil)
	case c == '-' || c >= '0' && c <= '9':
		return p.number()
	}
	return nil, vzJSONerr
}

func (p *vzJSONp) digits() bool {
	n := 0
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		p.i++
		n++
	}
	return n > 0
}

func (p *vzJSONp) number() (interface{}, error) {
	start := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	first := p.i
	if !p.digits() {
		return nil, vzJSONerr
	}
	if p.i-first > 1 && p.s[first] == '0' {
		return nil, vzJSONerr
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if !p.digits() {
			return nil, vzJSONerr
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return nil, vzJSONerr
		}
	}
	text := p.s[start:p.i]
	if p.numbers {
		return json.Number(text), nil
	}
	f, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (p *vzJSONp) hex4() (r rune, ok bool) {
	if p.i+4 > len(p.s) {
		return 0, false
	}
	for n := 0; n < 4; n++ {
		c := p.s[p.i]
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
		p.i++
	}
	return r, true
}

func (p *vzJSONp) str() (interface{}, error) {
	p.i++
	var out []byte
	from := p.i // start of the bytes that stand for themselves
	flush := func() {
		if from < p.i {
			seg := p.s[from:p.i]
			if !utf8.ValidString(seg) {
				seg = string([]rune(seg))
			}
			out = append(out, seg...)
		}
	}
	for {
		if p.i == len(p.s) {
			return nil, io.ErrUnexpectedEOF
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			flush()
			p.i++
			return string(out), nil
		case c < ' ':
			return nil, vzJSONerr
		case c == '\\':
			flush()
			p.i++
			if p.i == len(p.s) {
				return nil, io.ErrUnexpectedEOF
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return nil, vzJSONerr
				}
				if r >= 0xD800 && r < 0xE000 {
					lone := true
					if r < 0xDC00 && p.i+1 < len(p.s) && p.s[p.i] == '\\' && p.s[p.i+1] == 'u' {
						keep := p.i
						p.i += 2
						r2, ok := p.hex4()
						if ok && r2 >= 0xDC00 && r2 < 0xE000 {
							r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
							lone = false
						} else {
							p.i = keep
						}
					}
					if lone {
						r = utf8.RuneError
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				return nil, vzJSONerr
			}
			from = p.i
		default:
			p.i++
		}
	}
}

func (p *vzJSONp) array() (interface{}, error) {
	p.i++
	out := []interface{}{}
	p.space()
	if p.i < len(p.s) && p.s[p.i] == ']' {
		p.i++
		return out, nil
	}
	for {
		p.space()
		v, err := p.value()
		if err != nil {
			return nil, err
		}
		out = append(out, v)
		p.space()
		if p.i == len(p.s) {
			return nil, io.ErrUnexpectedEOF
		}
		c := p.s[p.i]
		p.i++
		if c == ']' {
			return out, nil
		}
		if c != ',' {
			return nil, vzJSONerr
		}
	}
}

func (p *vzJSONp) object() (interface{}, error) {
	p.i++
	out := map[string]interface{}{}
	p.space()
	if p.i < len(p.s) && p.s[p.i] == '}' {
		p.i++
		return out, nil
	}
	for {
		p.space()
		if p.i == len(p.s) || p.s[p.i] != '"' {
			return nil, vzJSONerr
		}
		k, err := p.str()
		if err != nil {
			return nil, err
		}
		p.space()
		if p.i == len(p.s) || p.s[p.i] != ':' {
			return nil, vzJSONerr
		}
		p.i++
		p.space()
		v, err := p.value()
		if err != nil {
			return nil, err
		}
		out[k.(string)] = v
		p.space()
		if p.i == len(p.s) {
			return nil, io.ErrUnexpectedEOF
		}
		c := p.s[p.i]
		p.i++
		if c == '}' {
			return out, nil
		}
		if c != ',' {
			return nil, vzJSONerr
		}
	}
}
