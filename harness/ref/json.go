// Package ref is an independent reference implementation of the parts of TUF
// the checks need: canonical JSON, keys, signing, verification, the trusted
// metadata rules, the client workflow, delegation resolution and a simulated
// repository. It shares no code with the module under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// M is a JSON object.
type M = map[string]any

// Canon returns the OLPC canonical JSON of v.
func Canon(v any) []byte {
	var b bytes.Buffer
	canon(&b, v)
	return b.Bytes()
}

func canonString(b *bytes.Buffer, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	b.WriteByte('"')
}

func canon(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case string:
		canonString(b, x)
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case json.Number:
		b.WriteString(string(x))
	case []string:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonString(b, e)
		}
		b.WriteByte(']')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case M:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			canonString(b, k)
			b.WriteByte(':')
			canon(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("ref: cannot canonicalise %T", v))
	}
}

// Encode serialises v as plain JSON (sorted keys, no HTML escaping).
func Encode(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

// EncodeIndent serialises v with indentation.
func EncodeIndent(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", "  ")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// Decode parses JSON keeping numbers exact.
func Decode(data []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// Clone deep-copies a JSON value (numbers normalised to json.Number).
func Clone(v any) any {
	c, err := Decode(Encode(v))
	if err != nil {
		panic(err)
	}
	return c
}

// CloneM deep-copies an object.
func CloneM(v M) M { return Clone(v).(M) }

// Same reports whether two JSON values are equal (compared canonically).
func Same(a, b any) bool { return bytes.Equal(Canon(a), Canon(b)) }

func Int(v any) int64 {
	switch x := v.(type) {
	case int:
		return int64(x)
	case int64:
		return x
	case json.Number:
		n, _ := x.Int64()
		return n
	}
	return 0
}

func Str(v any) string { s, _ := v.(string); return s }
func Obj(v any) M      { m, _ := v.(M); return m }
func Bool(v any) bool  { b, _ := v.(bool); return b }
func Arr(v any) []any {
	switch x := v.(type) {
	case []any:
		return x
	case []string:
		r := make([]any, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r
	}
	return nil
}
func Strs(v any) []string {
	switch x := v.(type) {
	case []string:
		return x
	case []any:
		r := make([]string, 0, len(x))
		for _, e := range x {
			r = append(r, Str(e))
		}
		return r
	}
	return nil
}

func SHA256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func SHA512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }
func Hex(b []byte) string    { return hex.EncodeToString(b) }

// HashOf computes the hex digest for a supported algorithm name.
func HashOf(alg string, b []byte) string {
	switch alg {
	case "sha256":
		return Hex(SHA256(b))
	case "sha512":
		return Hex(SHA512(b))
	}
	panic("ref: algorithm " + alg)
}

// Hashes builds a hashes object.
func Hashes(b []byte, algs ...string) M {
	m := M{}
	for _, a := range algs {
		m[a] = HashOf(a, b)
	}
	return m
}

// QueryEscape is the reference for escaping names into one URL path segment or
// file name: every byte other than [A-Za-z0-9_.~-] is percent-encoded and a
// space becomes '+'.
func QueryEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z', '0' <= c && c <= '9', c == '-', c == '_', c == '.', c == '~':
			b.WriteByte(c)
		case c == ' ':
			b.WriteByte('+')
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}
