package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Documents using the whole metadata format, with unrecognised fields anywhere.

var docTypes = []string{"root", "timestamp", "snapshot", "targets"}

type richOpt struct {
	extras int  // percentage of objects that get unrecognised fields
	floats bool // unrecognised fields may hold fractions (not signable)
}

var extraNames = []string{"x", "x-y", "", "é", "_typ", "types", "comment", "-", "id", "path", "Path", "UnrecognizedFields", "\"quoted\"", "back\\slash", "a/b", "nested", "<html>&", "\u2028", "zz", "keyid_hash_algorithms", "0", "_comment", "private", "note", "_", "$schema", "description", "type", "method", "url", "sha256", "certificate", "x-added", "_internal", "Z"}

// foreignNames mean something in objects of another kind.
var foreignNames = func() (l []string) {
	seen := map[string]bool{}
	for _, kind := range []string{"envelope", "signature", "root", "targets", "snapshot", "key", "keyval", "role", "metafile", "targetfile", "delegs", "drole", "succinct"} {
		for _, n := range knownNames[kind] {
			if !seen[n] {
				seen[n] = true
				l = append(l, n)
			}
		}
	}
	return l
}()

// knownNames are the field names of each object kind; unrecognised fields must
// differ from them also when case is ignored (a known finding).
var knownNames = map[string][]string{
	"envelope":   {"signed", "signatures"},
	"signature":  {"keyid", "sig"},
	"root":       {"_type", "spec_version", "consistent_snapshot", "version", "expires", "keys", "roles"},
	"timestamp":  {"_type", "spec_version", "version", "expires", "meta"},
	"snapshot":   {"_type", "spec_version", "version", "expires", "meta"},
	"targets":    {"_type", "spec_version", "version", "expires", "targets", "delegations"},
	"key":        {"keytype", "scheme", "keyval"},
	"keyval":     {"public"},
	"role":       {"keyids", "threshold"},
	"metafile":   {"length", "hashes", "version"},
	"targetfile": {"length", "hashes", "custom"},
	"delegs":     {"keys", "roles", "succinct_roles"},
	"drole":      {"name", "keyids", "threshold", "terminating", "paths", "path_hash_prefixes"},
	"succinct":   {"keyids", "threshold", "bit_length", "name_prefix"},
}

var someStrings = []string{"", "a", "text", "é ü 漢字", "quote\" back\\ slash/", "tab\tnewline\n", "<script>&amp;", "\u2028\u2029", "null", "0", "\x00\x1f\x7f", "😀", "1.0"}

// jsonValue draws any JSON value whose numbers are integers a float64 holds
// exactly (larger ones are a known finding), or small fractions if allowed.
func jsonValue(t *rapid.T, o richOpt, depth int) any {
	k := intn(t, "kind", 0, 9)
	if depth <= 0 && k >= 8 {
		k = 1
	}
	switch k {
	case 0:
		return nil
	case 1, 2:
		if chance(t, "long string", 2) {
			return pick(t, "edge", "", " ", "\t", "\n") + strings.Repeat(pick(t, "unit", "long ", "é", "x", "\""), intn(t, "units", 200, 3000)) + pick(t, "edge", "", " ", "\n")
		}
		return pick(t, "string", someStrings...)
	case 3:
		return chance(t, "bool", 50)
	case 4, 5:
		return json.Number(strconv.FormatInt(pick[int64](t, "int", 0, 1, -1, 7, 1<<31, -1<<40, 1<<53, -1<<53, 999999999999, 1000000000000), 10))
	case 6:
		if o.floats {
			return json.Number(pick(t, "float", "0.5", "-1.25", "3.75", "1024.5"))
		}
		return "plain"
	case 7:
		return pick[any](t, "empty", ref.M{}, []any{})
	case 8:
		var l []any
		for i, n := 0, intn(t, "len", 1, 3); i < n; i++ {
			l = append(l, jsonValue(t, o, depth-1))
		}
		return l
	}
	m := ref.M{}
	for i, n := 0, intn(t, "fields", 1, 3); i < n; i++ {
		m[pick(t, "field", extraNames...)] = jsonValue(t, o, depth-1)
	}
	return m
}

// with adds unrecognised fields to an object of the given kind.
func (o richOpt) with(t *rapid.T, kind string, m ref.M) ref.M {
	if !chance(t, "extras "+kind, o.extras) {
		return m
	}
	for i, n := 0, intn(t, "extra fields", 1, 2); i < n; i++ {
		name := pick(t, "extra", extraNames...)
		if chance(t, "foreign", 15) {
			// a field that means something in other objects
			name = pick(t, "foreign name", foreignNames...)
		}
		clash := false
		for _, k := range knownNames[kind] {
			clash = clash || strings.EqualFold(k, name)
		}
		if !clash {
			m[name] = jsonValue(t, o, 2)
		}
	}
	return m
}

func (o richOpt) key(t *rapid.T, k *ref.Key) ref.M {
	d := k.Doc()
	d["keyval"] = o.with(t, "keyval", ref.CloneM(ref.Obj(d["keyval"])))
	return o.with(t, "key", d)
}

func (o richOpt) keys(t *rapid.T, label string, max int) ([]any, ref.M) {
	ids, store := []any{}, ref.M{}
	for i, n := 0, intn(t, label, 0, max); i < n; i++ {
		k := pick(t, "key", ref.Ed(intn(t, "ed", 0, 9)), ref.Ed(intn(t, "ed", 10, 19)), ref.ECDSA(intn(t, "ec", 0, 5)), ref.RSA(0))
		d := o.key(t, k)
		id := ref.KeyID(onlyInts(d))
		if chance(t, "odd id", 10) {
			id = pick(t, "id", "", "not-an-id", "é", strings.ToUpper(id))
		}
		ids = append(ids, id)
		store[id] = d
	}
	if chance(t, "repeat", 8) && len(ids) > 0 {
		ids = append(ids, ids[0])
	}
	return ids, store
}

// onlyInts drops fractions so that a value can be canonicalised.
func onlyInts(v ref.M) ref.M {
	var f func(any) any
	f = func(v any) any {
		switch x := v.(type) {
		case json.Number:
			if strings.ContainsAny(string(x), ".eE") {
				return nil
			}
		case ref.M:
			m := ref.M{}
			for k, e := range x {
				m[k] = f(e)
			}
			return m
		case []any:
			l := []any{}
			for _, e := range x {
				l = append(l, f(e))
			}
			return l
		}
		return v
	}
	return ref.Obj(f(v))
}

func merge(dst, src ref.M) {
	for k, v := range src {
		dst[k] = v
	}
}

var someExpiries = []string{ref.FarFuture, ref.FarPast, "2030-02-28T23:59:59Z", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2024-02-29T12:00:00Z", "2031-05-06T07:08:09+02:00", "2030-01-01T00:00:00.5Z"}

func someVersion(t *rapid.T) int64 {
	return pick[int64](t, "version", 1, 1, 2, 3, 10, 1<<31, 1<<53+1, 1<<62, 1<<63-1)
}

func (o richOpt) hashes(t *rapid.T, least int) ref.M {
	h := ref.M{}
	for i, n := 0, intn(t, "hashes", least, 3); i < n; i++ {
		a := pick(t, "alg", "sha256", "sha512", "md5", "sha256", "blake2b-256", "é")
		h[a] = ref.Hex(ref.SHA512([]byte(fmt.Sprint(i))))[:2*pick(t, "digest", 32, 64, 1, 0, 20)]
	}
	return h
}

func (o richOpt) droleCommon(t *rapid.T, store ref.M) ref.M {
	ids, keys := o.keys(t, "role keys", 3)
	merge(store, keys)
	return ref.M{"keyids": ids, "threshold": pick(t, "threshold", 1, 1, 2, 3, 1<<31)}
}

// richDoc draws the signed part of a document of the given type.
func richDoc(t *rapid.T, typ string, o richOpt) ref.M {
	s := ref.M{"_type": typ, "spec_version": pick(t, "spec", "1.0.31", "1.0", "", "2.0.0-é"), "version": someVersion(t), "expires": pick(t, "expires", someExpiries...)}
	switch typ {
	case "root":
		keys, roles := ref.M{}, ref.M{}
		for _, r := range docTypes {
			if chance(t, "no "+r, 5) {
				continue
			}
			ids, ks := o.keys(t, "role keys", 3)
			merge(keys, ks)
			roles[r] = o.with(t, "role", ref.M{"keyids": ids, "threshold": pick(t, "threshold", 1, 2, 5)})
		}
		if chance(t, "other role", 15) {
			roles[pick(t, "role name", "mirrors", "x", "", "é")] = ref.M{"keyids": []any{}, "threshold": 1}
		}
		s["consistent_snapshot"] = chance(t, "consistent", 50)
		s["keys"], s["roles"] = keys, roles
	case "timestamp", "snapshot":
		meta := ref.M{}
		if typ == "timestamp" {
			meta["snapshot.json"] = o.metafile(t)
		} else {
			meta["targets.json"] = o.metafile(t)
		}
		for i, n := 0, intn(t, "meta", 0, 3); i < n; i++ {
			meta[pick(t, "meta name", "a.json", "b c.json", "é/x.json", "root.json", "", "noext", "\"q\"")] = o.metafile(t)
		}
		s["meta"] = meta
	case "targets":
		tg := ref.M{}
		for i, n := 0, intn(t, "targets", 0, 4); i < n; i++ {
			f := ref.M{"length": pick[int64](t, "length", 0, 1, 100, 1<<40, 1<<63-1), "hashes": o.hashes(t, 0)}
			if chance(t, "custom", 40) {
				v := jsonValue(t, o, 3)
				if v == nil {
					v = ref.M{"big": json.Number("9223372036854775807")}
				}
				f["custom"] = v
			}
			tg[pick(t, "path", "f", "a/b", "é", "", "a b", "\"q\"\\", "..", "<&>", "x/y/z")] = o.with(t, "targetfile", f)
		}
		s["targets"] = tg
		if chance(t, "delegations", 65) {
			keys := ref.M{}
			d := ref.M{"keys": keys}
			switch intn(t, "kind of delegations", 0, 5) {
			case 0:
				r := o.droleCommon(t, keys)
				r["bit_length"] = intn(t, "bits", 1, 32)
				r["name_prefix"] = pick(t, "prefix", "bin", "", "é", "a/b")
				d["succinct_roles"] = o.with(t, "succinct", r)
			case 1:
				d["roles"] = []any{}
				if chance(t, "unused keys", 50) {
					_, ks := o.keys(t, "unused", 2)
					merge(keys, ks)
				}
			case 2: // neither roles nor bins
				if chance(t, "unused keys", 50) {
					_, ks := o.keys(t, "unused", 2)
					merge(keys, ks)
				}
			default:
				roles := []any{}
				for i, n := 0, intn(t, "droles", 1, 3); i < n; i++ {
					r := o.droleCommon(t, keys)
					r["name"] = pick(t, "drole name", "a", "b", "a b", "é", "x/y", "Targets", "..") + strings.Repeat("'", i)
					r["terminating"] = chance(t, "terminating", 40)
					switch intn(t, "paths", 0, 4) {
					case 0:
						r["path_hash_prefixes"] = pick(t, "prefixes", []any{"00", "ab"}, []any{}, []any{""})
					case 1: // neither
					default:
						r["paths"] = pick(t, "patterns", []any{"*"}, []any{"a/*", "b/?"}, []any{}, []any{"[", "é\\"})
					}
					roles = append(roles, o.with(t, "drole", r))
				}
				d["roles"] = roles
			}
			s["delegations"] = o.with(t, "delegs", d)
		}
	}
	return o.with(t, typ, s)
}

func (o richOpt) metafile(t *rapid.T) ref.M {
	m := ref.M{"version": someVersion(t)}
	if chance(t, "with length", 50) {
		m["length"] = pick[int64](t, "length", 1, 100, 1<<40, 1<<53+1, 1<<63-1)
	}
	if chance(t, "with hashes", 50) {
		if h := o.hashes(t, 1); len(h) > 0 {
			m["hashes"] = h
		}
	}
	return o.with(t, "metafile", m)
}

// sameJSON compares two values, numbers by value.
func sameJSON(a, b any) string {
	switch x := a.(type) {
	case ref.M:
		y, ok := b.(ref.M)
		if !ok {
			return fmt.Sprintf("%s / %s", ref.Encode(a), ref.Encode(b))
		}
		for _, k := range sortedKeys(x) {
			if _, ok := y[k]; !ok {
				return fmt.Sprintf("field %q is gone", k)
			}
			if d := sameJSON(x[k], y[k]); d != "" {
				return k + "." + d
			}
		}
		for _, k := range sortedKeys(y) {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("field %q was added", k)
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s / %s", ref.Encode(a), ref.Encode(b))
		}
		for i := range x {
			if d := sameJSON(x[i], y[i]); d != "" {
				return fmt.Sprintf("%d.%s", i, d)
			}
		}
		return ""
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return fmt.Sprintf("%s / %s", ref.Encode(a), ref.Encode(b))
		}
		if x == y {
			return ""
		}
		_, e1 := strconv.ParseInt(string(x), 10, 64)
		_, e2 := strconv.ParseInt(string(y), 10, 64)
		if e1 == nil && e2 == nil {
			return fmt.Sprintf("%s / %s", x, y)
		}
		f, _ := x.Float64()
		g, _ := y.Float64()
		if f != g {
			return fmt.Sprintf("%s / %s", x, y)
		}
		return ""
	}
	if a != b {
		return fmt.Sprintf("%s / %s", ref.Encode(a), ref.Encode(b))
	}
	return ""
}

// reformat renders a JSON value with drawn whitespace, field order and string
// escapes.
func reformat(t *rapid.T, v any) []byte {
	var b strings.Builder
	ws := func() string { return pick(t, "ws", "", "", "", " ", "\n", "\t ", "\r\n") }
	str := func(s string) {
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r < 0x20 || r > 0xffff || chance(t, "escape", 5):
				if r > 0xffff {
					b.WriteRune(r)
				} else {
					fmt.Fprintf(&b, "\\u%04x", r)
				}
			case r == '/' && chance(t, "slash", 50):
				b.WriteString("\\/")
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	var f func(any)
	f = func(v any) {
		b.WriteString(ws())
		switch x := v.(type) {
		case ref.M:
			ks := sortedKeys(x)
			// rotate and perhaps reverse the order
			if len(ks) > 1 {
				k := intn(t, "rotate", 0, len(ks)-1)
				ks = append(append([]string{}, ks[k:]...), ks[:k]...)
			}
			b.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(ws())
				str(k)
				b.WriteString(ws() + ":")
				f(x[k])
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				f(e)
			}
			b.WriteByte(']')
		case string:
			str(x)
		default:
			b.Write(ref.Encode(x))
		}
		b.WriteString(ws())
	}
	f(v)
	return []byte(b.String())
}
