//go:build go1.21

package gotables

import (
	"errors"
	"math"
	"strconv"
	"strings"
	"time"

	yaml "gopkg.in/yaml.v3"
)

// A model of yaml.v3, which stands in for it under the engine: Marshal remembers the value behind a token and
// Unmarshal gives back what yaml.v3 makes of it - untyped maps and slices, integers as int or uint64 when they
// do not fit, whole floats below a million as int, byte slices as slices of int. Native replays use the real package.

var vzYAMLdocs []interface{}

const vzYAMLtok = "yaml0000"

var vzYAMLerr = errors.New("yaml: cannot unmarshal")

type vzYAMLbad struct{} // text that cannot be parsed

func vzStub_gopkg_in_yaml_v3_Marshal(v interface{}) ([]byte, error) {
	vzYAMLdocs = append(vzYAMLdocs, vzYAMLnorm(v))
	n := len(vzYAMLdocs) - 1
	b := []byte(vzYAMLtok)
	for i := len(b) - 1; n > 0; i-- {
		b[i] = '0' + byte(n%10)
		n /= 10
	}
	return b, nil
}

func vzStub_gopkg_in_yaml_v3_Unmarshal(in []byte, out interface{}) error {
	n := 0
	if len(in) != len(vzYAMLtok) || string(in[:4]) != vzYAMLtok[:4] {
		vzUnmodelled("yaml: text not written by Marshal")
	}
	for _, c := range in[4:] {
		n = n*10 + int(c-'0')
	}
	v := vzYAMLcopy(vzYAMLdocs[n])
	if vzYAMLbroken(v) {
		return vzYAMLerr
	}
	switch x := out.(type) {
	case *map[string]interface{}:
		if v == nil {
			return nil
		}
		m, ok := v.(map[string]interface{})
		if !ok {
			return vzYAMLerr
		}
		*x = m
	case *interface{}:
		*x = v
	default:
		vzUnmodelled("yaml: decoding into another type")
	}
	return nil
}

func vzYAMLbroken(v interface{}) bool {
	switch x := v.(type) {
	case vzYAMLbad:
		return true
	case []interface{}:
		for _, e := range x {
			if vzYAMLbroken(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if vzYAMLbroken(e) {
				return true
			}
		}
	}
	return false
}

func vzYAMLcopy(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, vzYAMLcopy(e))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = vzYAMLcopy(e)
		}
		return out
	}
	return v
}

func vzYAMLuint(x uint64) interface{} {
	if x <= math.MaxInt64 {
		return int(x)
	}
	return x
}

func vzYAMLfloat(f float64, bits int) interface{} {
	if f > -1e6 && f < 1e6 && f == math.Trunc(f) {
		return int(f)
	}
	if bits == 32 {
		g, err := strconv.ParseFloat(strconv.FormatFloat(f, 'g', -1, 32), 64)
		if err != nil {
			vzUnmodelled("yaml: float text")
		}
		return g
	}
	return f
}

// vzYAMLblock: strings that yaml.v3 writes as a block scalar it cannot read back (some of them).
func vzYAMLblock(s string) bool {
	if len(s) < 2 || s[0] != ' ' || s[len(s)-1] == ' ' {
		return false
	}
	lines := false
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = true
			if s[i-1] == ' ' {
				return false
			}
		} else if s[i] < ' ' || s[i] > '~' {
			return false
		}
	}
	return lines
}

func vzYAMLnorm(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		return x
	case string:
		if strings.Contains(x, "\n") && vzYAMLblock(x) {
			return vzYAMLbad{}
		}
		return x
	case int:
		return x
	case int8:
		return int(x)
	case int16:
		return int(x)
	case int32:
		return int(x)
	case int64:
		return int(x)
	case uint:
		return vzYAMLuint(uint64(x))
	case uint8:
		return int(x)
	case uint16:
		return int(x)
	case uint32:
		return int(x)
	case uint64:
		return vzYAMLuint(x)
	case float32:
		return vzYAMLfloat(float64(x), 32)
	case float64:
		return vzYAMLfloat(x, 64)
	case time.Time:
		return x
	case []byte:
		out := []interface{}{}
		for _, b := range x {
			out = append(out, int(b))
		}
		return out
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, vzYAMLnorm(e))
		}
		return out
	case [][]interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, vzYAMLnorm(e))
		}
		return out
	case []map[string]interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, vzYAMLnorm(e))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = vzYAMLnorm(e)
		}
		return out
	case *yaml.Node:
		if x == nil || x.Kind != yaml.ScalarNode || x.Style&yaml.DoubleQuotedStyle == 0 || x.Tag != "" && x.Tag != "!!str" {
			vzUnmodelled("yaml: node")
		}
		return x.Value
	}
	vzUnmodelled("yaml: encoding another type")
	return nil
}
