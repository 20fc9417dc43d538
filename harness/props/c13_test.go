package props

import (
	"bytes"
	"crypto"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/sigstore/sigstore/pkg/signature"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// ---- mutations ----

var oddNumbers = []string{"0", "-1", "-0", "1", "2", "0.5", "1e3", "1e400", "-1e-400", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "18446744073709551615", "31", "32", "33", "34", "40", "48", "63", "64", "65", "4294967295", "4294967296"}

var oddStrings = []string{"", "x", "0", "null", "true", "root", "targets", "snapshot", "\x00", "é", "[", "\\", "zz", "0g", "abc", strings.Repeat("a", 3000), "..", "/", "2030-13-01T00:00:00Z", "2030-01-01", "9999-12-31T23:59:59.999999999Z", "2030-01-01T00:00:00+99:00", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", "-----BEGIN PUBLIC KEY-----"}

// oddValue draws a value of a drawn JSON type.
func oddValue(t *rapid.T) any {
	switch intn(t, "odd kind", 0, 8) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return false
	case 3, 4:
		return json.Number(pick(t, "odd number", oddNumbers...))
	case 5, 6:
		return pick(t, "odd string", oddStrings...)
	case 7:
		return pick[any](t, "odd list", []any{}, []any{nil}, []any{"", json.Number("1")}, []any{ref.M{}}, []any{[]any{}}, []any{"x", "x"})
	}
	return pick[any](t, "odd object", ref.M{}, ref.M{"": nil}, ref.M{"x": nil}, ref.M{"keyids": nil}, ref.M{"sha256": nil}, ref.M{"public": ""}, ref.M{"targets.json": nil, "snapshot.json": nil}, ref.M{"root": nil})
}

// mutate changes the value at one drawn place of the object, which it edits.
func mutate(t *rapid.T, root ref.M, kind string) string {
	ps := places(root, kind, "")
	if len(ps) == 0 {
		root["x"] = oddValue(t)
		return "a field added to an empty object"
	}
	p := ps[intn(t, "place", 0, len(ps)-1)]
	if chance(t, "field of the format", 60) {
		var own []place
		for _, q := range ps {
			if q.key == "" || known(q.kind, q.key) || strings.HasPrefix(q.kind, "map:") {
				own = append(own, q)
			}
		}
		if len(own) > 0 && chance(t, "by field", 50) {
			// every field has the same chance, however often it occurs
			var fields []string
			at := map[string][]place{}
			for _, q := range own {
				f := q.kind + "." + q.key
				if strings.HasPrefix(q.kind, "map:") || q.key == "" {
					f = q.kind
				}
				if at[f] == nil {
					fields = append(fields, f)
				}
				at[f] = append(at[f], q)
			}
			own = at[fields[intn(t, "field", 0, len(fields)-1)]]
		}
		if len(own) > 0 {
			p = own[intn(t, "own place", 0, len(own)-1)]
		}
	}
	remove := func() {
		switch x := p.parent.(type) {
		case ref.M:
			delete(x, p.key)
		case []any:
			// the list itself is held by its parent; a null stands for the removal
			x[p.index] = nil
		}
	}
	switch what := pick(t, "mutation", "remove", "null", "null", "odd", "odd", "odd", "empty", "splice", "deep", "rename", "repeat"); what {
	case "remove":
		remove()
		return "remove " + p.path
	case "null":
		setPlace(nil, p, nil)
		return "null for " + p.path
	case "odd":
		v := oddValue(t)
		switch p.value.(type) {
		case json.Number, int64, int:
			if chance(t, "same kind", 50) {
				v = json.Number(pick(t, "odd number", oddNumbers...))
			}
		}
		setPlace(nil, p, v)
		return fmt.Sprintf("%s := %.60s", p.path, ref.Encode(v))
	case "empty":
		switch p.value.(type) {
		case ref.M:
			setPlace(nil, p, ref.M{})
		case []any:
			setPlace(nil, p, []any{})
		case string:
			setPlace(nil, p, "")
		default:
			setPlace(nil, p, json.Number("0"))
		}
		return "empty " + p.path
	case "splice":
		q := ps[intn(t, "from", 0, len(ps)-1)]
		setPlace(nil, p, ref.Clone(q.value))
		return p.path + " := " + q.path
	case "deep":
		var v any = "x"
		n := pick(t, "depth", 2, 3, 10, 100, 1000)
		obj := chance(t, "of objects", 50)
		for i := 0; i < n; i++ {
			if obj {
				v = ref.M{"x": v}
			} else {
				v = []any{v}
			}
		}
		setPlace(nil, p, v)
		return fmt.Sprintf("%d levels at %s", n, p.path)
	case "rename":
		if m, ok := p.parent.(ref.M); ok {
			delete(m, p.key)
			n := pick(t, "new name", "", "x", "root", "targets", "snapshot.json", "keys", "roles", "\x00", strings.Repeat("n", 300))
			m[n] = p.value
			return "rename " + p.path + " to " + fmt.Sprintf("%.20q", n)
		}
		remove()
		return "remove " + p.path
	}
	// a repeated element or an element under a second name
	switch x := p.value.(type) {
	case []any:
		if len(x) > 0 {
			setPlace(nil, p, append(append([]any{}, x...), ref.Clone(x[intn(t, "element", 0, len(x)-1)])))
			return "repeat an element of " + p.path
		}
	case ref.M:
		if ks := sortedKeys(x); len(ks) > 0 {
			x["copy"] = ref.Clone(x[ks[0]])
			return "copy a field of " + p.path
		}
	}
	remove()
	return "remove " + p.path
}

// rawMutate changes the text of a document.
func rawMutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, intn(t, "raw changes", 1, 3); i < n; i++ {
		if len(b) == 0 {
			return []byte(pick(t, "text", "null", "{}", "[]", "0", "\"\"", "{", " ", "\xff"))
		}
		at := intn(t, "at", 0, len(b)-1)
		switch intn(t, "raw mutation", 0, 8) {
		case 8: // nesting as deep as parsers accept, or deeper
			n := pick(t, "depth", 5, 500, 5000, 9990, 10010)
			if n >= 5000 && !chance(t, "very deep", 10) {
				n = 20
			}
			if j := bytes.IndexByte(b[at:], ':'); j >= 0 {
				at += j + 1
				ins := strings.Repeat("[", n) + strings.Repeat("]", n) + pick(t, "after", `,"":`, `,"x":`, ",")
				b = append(b[:at:at], append([]byte(ins), b[at:]...)...)
			}
		case 0:
			b = b[:at]
		case 1:
			b[at] ^= 1 << intn(t, "bit", 0, 7)
		case 2:
			b[at] = pick(t, "byte", []byte("{}[]\",:0-n\\ \x00\xff")...)
		case 3:
			ins := pick(t, "insert", "{", "}", "[", "]", ",", "null", "\"", "\\u0000", "\\ud800", "\xff\xfe", "1e999", "//", "\ufeff")
			b = append(b[:at:at], append([]byte(ins), b[at:]...)...)
		case 4:
			to := intn(t, "to", at, min(len(b), at+40))
			b = append(b[:at:at], b[to:]...)
		case 5: // a second value for some field
			if j := bytes.IndexByte(b[at:], '{'); j >= 0 {
				at += j + 1
				ins := pick(t, "field", `"signed":null,`, `"signatures":null,`, `"_type":"root",`, `"_type":7,`, `"version":null,`, `"roles":null,`, `"keys":{"x":null},`, `"meta":null,`, `"targets":{"a":null},`, `"hashes":null,`, `"keyval":null,`, `"delegations":null,`, `"expires":0,`)
				b = append(b[:at:at], append([]byte(ins), b[at:]...)...)
			}
		case 6:
			b = append(b, pick(t, "tail", "x", "{}", "\x00", " ", "]", "null")...)
		case 7:
			to := intn(t, "to", at, len(b))
			b = append(b, b[at:to]...)
		}
	}
	return b
}

func mutatedDoc(t *rapid.T, typ string) (b []byte, env ref.M, what []string) {
	var keys []*ref.Key
	if chance(t, "signed", 60) {
		keys = keySet(t, "signers", 1, 2)
	}
	signed := richDoc(t, typ, richOpt{extras: pick(t, "extras", 0, 15), floats: keys == nil})
	env = ref.CloneM(richEnv(t, richOpt{extras: pick(t, "extras", 0, 10)}, signed, keys))
	for i, n := 0, pick(t, "mutations", 1, 1, 1, 2, 3, 0); i < n; i++ {
		what = append(what, mutate(t, env, "envelope"))
	}
	if chance(t, "many signatures", 5) {
		// one of them may be there twice, next to each other or far apart
		var l []any
		for i, n := 0, intn(t, "signature count", 1, 40); i < n; i++ {
			l = append(l, ref.M{"keyid": ref.Hex(ref.SHA256([]byte{byte(i)})), "sig": "00"})
		}
		if chance(t, "one twice", 70) {
			c := ref.CloneM(ref.Obj(l[intn(t, "twin", 0, len(l)-1)]))
			c["sig"] = pick(t, "twin sig", "00", "01", "")
			at := intn(t, "twin at", 0, len(l))
			l = append(l[:at:at], append([]any{c}, l[at:]...)...)
			what = append(what, "a key signs twice")
		}
		env["signatures"] = l
	}
	b = ref.Encode(env)
	switch {
	case chance(t, "raw", 30):
		b = rawMutate(t, b)
		what = append(what, "changed text")
		env = nil
	case chance(t, "garbage", 5):
		b = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "garbage bytes")
		what = append(what, "garbage")
		env = nil
	}
	return b, env, what
}

// exercise uses everything a parsed document offers; it must not panic.
func exercise(signer signature.Signer, d doc, others []doc) {
	now := time.Now()
	d.Expired(now)
	paths := []string{"f", "a/b", "", "x/y/z", "a b", "/", "[", "é"}
	role := func(n string) {
		for _, o := range others {
			_ = d.VerifyDelegate(n, o.Any())
		}
		_ = d.VerifyDelegate(n, d.Any())
		_ = d.VerifyDelegate(n, nil)
	}
	for _, n := range []string{"root", "timestamp", "snapshot", "targets", "a", "", "bin-0", "absent"} {
		role(n)
	}
	for _, o := range others {
		for _, n := range []string{"root", "timestamp", "snapshot", "targets", "a"} {
			_ = o.VerifyDelegate(n, d.Any())
		}
	}
	keys := map[string]*metadata.Key{}
	switch m := d.Any().(type) {
	case *metadata.Metadata[metadata.RootType]:
		for n := range m.Signed.Roles {
			role(n)
		}
		keys = m.Signed.Keys
		for id := range m.Signed.Keys {
			_ = m.Signed.RevokeKey(id, "absent")
		}
	case *metadata.Metadata[metadata.TimestampType]:
		for _, f := range m.Signed.Meta {
			_ = f.VerifyLengthHashes([]byte("data"))
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		for _, f := range m.Signed.Meta {
			_ = f.VerifyLengthHashes([]byte("data"))
		}
	case *metadata.Metadata[metadata.TargetsType]:
		for _, f := range m.Signed.Targets {
			_ = f.VerifyLengthHashes([]byte("data"))
			_ = f.Equal(*f)
			_, _ = json.Marshal(f)
		}
		if dl := m.Signed.Delegations; dl != nil {
			keys = dl.Keys
			for _, p := range paths {
				_ = dl.GetRolesForTarget(p)
			}
			for i := range dl.Roles {
				role(dl.Roles[i].Name)
				for _, p := range paths {
					_, _ = dl.Roles[i].IsDelegatedPath(p)
				}
			}
			if s := dl.SuccinctRoles; s != nil {
				s.GetSuffixLen()
				for _, p := range paths {
					for n := range s.GetRolesForTarget(p) {
						role(n)
						s.IsDelegatedRole(n)
					}
				}
				s.IsDelegatedRole("")
				s.IsDelegatedRole(s.NamePrefix)
				s.IsDelegatedRole(s.NamePrefix + "-")
				if s.BitLength <= 10 {
					_ = s.GetRoles()
				}
			}
		}
	}
	for _, k := range keys {
		_, _ = k.ToPublicKey()
	}
	_, _ = d.Sign(signer)
	d.ClearSignatures()
}

func TestC13Parse(t *testing.T) {
	dir := newDir()
	t.Cleanup(func() { rmDir(dir) })
	run(t, 2500, func(t *rapid.T) {
		defer countLogs(100000)()
		typ := pick(t, "type", docTypes...)
		b, env, what := mutatedDoc(t, typ)
		as := typ
		if chance(t, "as another type", 15) {
			as = pick(t, "as", docTypes...)
		}
		desc := fmt.Sprintf("%s as %s, %s:\n%.3000s", typ, as, strings.Join(what, "; "), b)
		// the receiver may hold something already
		base := []byte(nil)
		d, twin := newDoc(as), newDoc(as)
		if chance(t, "used receiver", 50) {
			base = ref.SignAll(onlyInts(richDoc(t, as, richOpt{})), ref.Ed(1))
			if e1, e2 := d.FromBytes(base), twin.FromBytes(base); e1 != nil || e2 != nil {
				t.Fatalf("valid document refused: %v\n%s", e1, base)
			}
		}
		in := append([]byte(nil), b...)
		var err error
		var p string
		if chance(t, "from a file", 20) {
			f := filepath.Join(dir, "doc.json")
			if e := os.WriteFile(f, in, 0o644); e != nil {
				t.Fatalf("HARNESS-ERROR %v", e)
			}
			p = guard(func() { err = d.FromFile(f) })
		} else {
			p = guard(func() { err = d.FromBytes(in) })
		}
		if p != "" {
			t.Fatalf("parsing: %s\n%s", p, desc)
		}
		if !bytes.Equal(in, b) {
			t.Fatalf("parsing changed its input: %s", desc)
		}
		if env != nil {
			if sg, ok := env["signed"].(ref.M); ok && err == nil {
				if s, ok := sg["_type"].(string); ok && s != as {
					t.Fatalf("metadata of type %q accepted as %s: %s", s, as, desc)
				}
			}
			if l, ok := env["signatures"].([]any); ok && err == nil {
				seen := map[string]bool{}
				for _, e := range l {
					if id, ok := ref.Obj(e)["keyid"].(string); ok {
						if seen[id] {
							t.Fatalf("two signatures of key %q accepted: %s", id, desc)
						}
						seen[id] = true
					}
				}
			}
		}
		if err != nil {
			if !reflect.DeepEqual(d.Any(), twin.Any()) {
				t.Fatalf("a failed parse (%v) changed the receiver: %s", err, desc)
			}
		} else {
			// the result must be usable: serialise, parse again, use
			var out, out2 []byte
			var e1, e2 error
			if p := guard(func() { out, e1 = d.ToBytes(false); out2, e2 = d.ToBytes(true) }); p != "" {
				t.Fatalf("serialising: %s\n%s", p, desc)
			}
			if e1 != nil || e2 != nil {
				t.Fatalf("what was parsed cannot be serialised: %v %v: %s", e1, e2, desc)
			}
			for _, o := range [][]byte{out, out2} {
				if _, e := parseDoc(as, o); e != nil {
					t.Fatalf("what was parsed cannot be parsed after serialising: %v\n%s\nfrom %s", e, o, desc)
				}
			}
			var others []doc
			for i, n := 0, intn(t, "others", 0, 2); i < n; i++ {
				if o, e := parseDoc("targets", ref.SignAll(onlyInts(richDoc(t, "targets", richOpt{})), ref.Ed(1))); e == nil {
					others = append(others, o)
				}
			}
			others = append(others, must(parseDoc("root", ref.SignAll(onlyInts(richDoc(t, "root", richOpt{})), ref.Ed(1)))))
			signer := signerFor(t, ref.Ed(3))
			if p := guard(func() { exercise(signer, d, others) }); p != "" {
				t.Fatalf("using the parsed document: %s\n%s", p, desc)
			}
		}
		ev.New("C13Parse").Add(b, as).Class("type "+typ).ClassIf(err != nil, "refused").ClassIf(err == nil, "accepted").
			ClassIf(as != typ, "wrong type").NonTrivial(len(what) > 0).Sample(map[string]any{"mutations": what, "as": as, "result": errStr(err)}).End()
	})
}

// TestC13Every takes valid documents and puts, at every kind of place, one
// after the other: nothing, null, numbers at limits, odd strings and the other
// JSON types.
func TestC13Every(t *testing.T) {
	signer := ed25519Signer(t)
	run(t, 8, func(t *rapid.T) {
		defer countLogs(100000)()
		typ := pick(t, "type", "root", "timestamp", "snapshot", "targets", "targets", "targets")
		signed := onlyInts(ref.CloneM(richDoc(t, typ, richOpt{extras: pick(t, "extras", 0, 10)})))
		if typ == "targets" && chance(t, "bins", 35) {
			k := ref.Ed(1)
			signed["delegations"] = ref.M{"keys": ref.M{k.ID(): k.Doc()}, "succinct_roles": ref.M{"keyids": []any{k.ID()}, "threshold": int64(1), "bit_length": int64(intn(t, "bits", 1, 8)), "name_prefix": "bin"}}
		}
		env := ref.SignEnv(signed, keySet(t, "signers", 1, 2)...)
		fixed := ref.CloneM(ref.Obj(must(ref.Decode(ref.Encode(env)))))
		// one or two places of every kind
		ps := places(fixed, "envelope", "")
		count := map[string]int{}
		var at []int
		for _, i := range rapid.Permutation(indices(len(ps))).Draw(t, "order") {
			f := ps[i].kind + "." + ps[i].key
			if strings.HasPrefix(ps[i].kind, "map:") || ps[i].key == "" {
				f = ps[i].kind
			}
			if count[f] < map[bool]int{true: 2, false: 1}[ps[i].kind != ""] {
				count[f]++
				at = append(at, i)
			}
		}
		other := must(parseDoc("root", ref.SignAll(onlyInts(richDoc(t, "root", richOpt{})), ref.Ed(1))))
		accepted, refused := 0, 0
		for _, i := range at {
			var vs []any
			vs = append(vs, nil, true, false, "", "x", json.Number("0"), json.Number("-1"), []any{}, []any{nil}, ref.M{}, ref.M{"x": nil}, ref.M{"": json.Number("1")})
			switch ps[i].value.(type) {
			case json.Number:
				vs = vs[:5]
				for _, n := range oddNumbers {
					vs = append(vs, json.Number(n))
				}
				vs = append(vs, []any{}, ref.M{}, json.Number("1024"), json.Number("255"))
			case string:
				for _, o := range oddStrings {
					vs = append(vs, o)
				}
			}
			for j := -1; j < len(vs); j++ {
				m := ref.CloneM(fixed)
				p := places(m, "envelope", "")[i]
				what := "removed"
				if o, ok := p.parent.(ref.M); ok && j < 0 {
					delete(o, p.key)
				} else if j < 0 {
					continue
				} else {
					setPlace(nil, p, vs[j])
					what = fmt.Sprintf(":= %.80s", ref.Encode(vs[j]))
				}
				b := ref.Encode(m)
				d := newDoc(typ)
				var err error
				if pn := guard(func() { err = d.FromBytes(b) }); pn != "" {
					t.Fatalf("parsing with %s %s: %s\n%.3000s", p.path, what, pn, b)
				}
				if err != nil {
					refused++
					continue
				}
				accepted++
				if p.path == ".signed._type" && (j < 0 || vs[j] != any(typ)) {
					t.Fatalf("a %s with _type %s is accepted", typ, what)
				}
				if pn := guard(func() {
					if out, e := d.ToBytes(false); e != nil {
						t.Fatalf("with %s %s: parsed but cannot be serialised: %v\n%.3000s", p.path, what, e, b)
					} else if _, e := parseDoc(typ, out); e != nil {
						t.Fatalf("with %s %s: cannot be parsed after serialising: %v\n%.3000s", p.path, what, e, b)
					}
					exercise(signer, d, []doc{other})
				}); pn != "" {
					t.Fatalf("using a document with %s %s: %s\n%.3000s", p.path, what, pn, b)
				}
			}
		}
		ev.New("C13Every").Add(ref.Encode(env)).Class("every place: "+typ).ClassIf(accepted > 0, "some accepted").ClassIf(refused > 0, "some refused").
			NonTrivial(true).Sample(map[string]any{"type": typ, "places": len(at), "accepted": accepted, "refused": refused}).End()
	})
}

func indices(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func ed25519Signer(t *testing.T) signature.Signer {
	s, err := signature.LoadSigner(ed25519.NewKeyFromSeed(make([]byte, ed25519.SeedSize)), crypto.Hash(0))
	if err != nil {
		t.Fatal(err)
	}
	return s
}

// The parts of documents can be parsed on their own too.
func TestC13Parts(t *testing.T) {
	run(t, 2500, func(t *rapid.T) {
		typ := pick(t, "type", "root", "targets", "targets", "snapshot")
		signed := ref.CloneM(richDoc(t, typ, richOpt{extras: 10}))
		env := ref.M{"signed": signed, "signatures": []any{ref.M{"keyid": "a", "sig": "00"}}}
		ps := places(env, "envelope", "")
		p := ps[intn(t, "place", 0, len(ps)-1)]
		v := p.value
		holder := ref.M{"v": v}
		mutate(t, holder, "")
		b := ref.Encode(holder["v"])
		if chance(t, "raw", 30) {
			b = rawMutate(t, b)
		}
		objs := []any{&metadata.Key{}, &metadata.KeyVal{}, &metadata.Role{}, &metadata.DelegatedRole{}, &metadata.Delegations{}, &metadata.SuccinctRoles{}, &metadata.MetaFiles{},
			&metadata.TargetFiles{}, &metadata.Signature{}, &metadata.HexBytes{}, &metadata.Hashes{}, &metadata.RootType{}, &metadata.SnapshotType{}, &metadata.TimestampType{}, &metadata.TargetsType{}}
		n := 0
		for _, o := range objs {
			var err error
			if p := guard(func() {
				if u, ok := o.(json.Unmarshaler); ok && chance(t, "directly", 30) {
					err = u.UnmarshalJSON(b)
				} else {
					err = json.Unmarshal(b, o)
				}
			}); p != "" {
				t.Fatalf("%T from %s: %s", o, b, p)
			}
			if err != nil {
				continue
			}
			n++
			if p := guard(func() { _, _ = json.Marshal(o) }); p != "" {
				t.Fatalf("serialising %T parsed from %s: %s", o, b, p)
			}
			if p := guard(func() {
				switch x := o.(type) {
				case *metadata.Key:
					_, _ = x.ToPublicKey()
				case *metadata.Delegations:
					x.GetRolesForTarget("a/b")
				case *metadata.DelegatedRole:
					_, _ = x.IsDelegatedPath("a/b")
				case *metadata.MetaFiles:
					_ = x.VerifyLengthHashes([]byte("x"))
				case *metadata.TargetFiles:
					_ = x.VerifyLengthHashes([]byte("x"))
				case *metadata.SuccinctRoles:
					x.GetRolesForTarget("a/b")
					x.IsDelegatedRole("a-0")
				}
			}); p != "" {
				t.Fatalf("using %T parsed from %s: %s", o, b, p)
			}
		}
		ev.New("C13Parts").Add(b).ClassIf(n > 0, "accepted by some part").NonTrivial(len(b) > 2).End()
	})
}

// Documents that are correctly signed but malformed somewhere, given to a
// trusted set and to a client, remotely and from its cache.
func TestC13Client(t *testing.T) {
	run(t, 900, func(t *rapid.T) {
		defer countLogs(100000)()
		r := genRepo(t)
		if chance(t, "no records", 85) {
			r.RecLength, r.TSLength, r.RecAlgs, r.TSAlgs = false, false, nil, nil
			r.TouchSnapshot()
			r.Publish()
		}
		if chance(t, "second root", 40) {
			r.TouchRoot()
			r.Publish()
		}
		trusted := r.RootV
		for v := range r.Roots {
			trusted = min(trusted, v)
		}
		root := r.Roots[trusted]
		names := append([]string{"root", "timestamp", "snapshot"}, roleNames(r)...)
		victim := pick(t, "victim", names...)
		var orig []byte
		var keys []*ref.Key
		kind := "targets"
		switch victim {
		case "root":
			orig, keys, kind = r.Roots[pick(t, "which root", trusted, r.RootV)], r.Top["root"].Keys, "root"
		case "timestamp":
			orig, keys, kind = r.CurTS, r.Top["timestamp"].Keys, "timestamp"
		case "snapshot":
			orig, keys, kind = r.CurSN, r.Top["snapshot"].Keys, "snapshot"
		default:
			orig, keys = r.CurRole[victim], r.Roles[victim].Keys.Keys
		}
		env := ref.CloneM(ref.Obj(must(ref.Decode(orig))))
		var what []string
		var bad []byte
		if chance(t, "text only", 15) {
			bad = rawMutate(t, orig)
			what = []string{"changed text"}
		} else if chance(t, "envelope", 15) {
			what = append(what, mutate(t, env, "envelope"))
			bad = ref.Encode(env)
		} else {
			signed := ref.Obj(env["signed"])
			for i, n := 0, pick(t, "mutations", 1, 1, 2, 3); i < n; i++ {
				what = append(what, mutate(t, signed, kind))
			}
			bad = ref.SignAll(signed, keys...)
		}
		swap := func(b []byte) []byte {
			if bytes.Equal(b, orig) {
				return bad
			}
			return b
		}
		desc := fmt.Sprintf("%s changed: %s\n%.3000s", victim, strings.Join(what, "; "), bad)

		// a trusted set, with calls going on after refusals
		p := guard(func() {
			set, err := trustedmetadata.New(append([]byte(nil), swap(root)...))
			if err != nil {
				return
			}
			for v := trusted + 1; v <= r.RootV; v++ {
				_, _ = set.UpdateRoot(swap(r.Roots[v]))
			}
			_, _ = set.UpdateTimestamp(swap(r.CurTS))
			_, _ = set.UpdateSnapshot(swap(r.CurSN), false)
			_, _ = set.UpdateTargets(swap(r.CurRole["targets"]))
			for _, n := range roleNames(r) {
				for _, parent := range append([]string{victim}, roleNames(r)...) {
					if set.Targets[parent] != nil {
						_, _ = set.UpdateDelegatedTargets(swap(r.CurRole[n]), n, parent)
					}
				}
			}
			_, _ = set.UpdateTimestamp(swap(r.CurTS))
			_, _ = set.UpdateSnapshot(swap(r.CurSN), true)
		})
		if p != "" {
			t.Fatalf("trusted set: %s\n%s", p, desc)
		}

		// a client: served the document, or finding it in its cache
		base := newDir()
		defer rmDir(base)
		cached := chance(t, "in the cache", 40)
		if cached {
			files := map[string][]byte{"root.json": swap(r.Roots[r.RootV]), "timestamp.json": swap(r.CurTS), "snapshot.json": swap(r.CurSN)}
			for n, b := range r.CurRole {
				files[ref.QueryEscape(n)+".json"] = swap(b)
			}
			writeTree(filepath.Join(base, "meta"), files)
		}
		remote := !cached || chance(t, "also remotely", 30)
		cfg := baseConfig()
		cfg.Local = cached && chance(t, "local mode", 30)
		cfg.DisableCache = !cached && chance(t, "no cache", 20)
		f := newFetcher(func(url string, max int64, n int) ref.Resp {
			x := r.Serve(cfg.MetaURL, cfg.TargetURL, url)
			if remote {
				x.Data = swap(x.Data)
			}
			return x
		})
		asked := append(lookups(t, r, 3), "f1.txt", "dir/f1.txt")
		results := []string{}
		p = guard(func() {
			up, err := newUpdater(clientOpt{cfg: cfg, root: append([]byte(nil), swap(root)...), metaDir: filepath.Join(base, "meta"), targetsDir: filepath.Join(base, "files"), fetch: f})
			results = append(results, errStr(err))
			if err != nil {
				return
			}
			err = up.Refresh()
			results = append(results, errStr(err))
			if err != nil {
				return
			}
			for _, a := range asked {
				ti, err := up.GetTargetInfo(a)
				results = append(results, errStr(err))
				if err != nil {
					continue
				}
				if len(ti.Hashes) == 0 {
					continue // a description without hashes cannot be downloaded by name
				}
				_, _, err = up.DownloadTarget(ti, "", "")
				results = append(results, "download "+errStr(err))
				_, _, err = up.FindCachedTarget(ti, "")
				results = append(results, "find "+errStr(err))
			}
			for _, tf := range up.GetTopLevelTargets() {
				_ = tf.Equal(*tf)
			}
		})
		if p != "" {
			t.Fatalf("client (cached %v, remote %v, local %v): %s\n%s", cached, remote, cfg.Local, p, desc)
		}
		used := len(results) > 1
		refreshed := len(results) > 2
		ev.New("C13Client").Add(bad, cached, remote).Class("victim "+kind).ClassIf(cached, "in the cache").ClassIf(!used, "no client").ClassIf(refreshed, "refreshed").
			NonTrivial(used).Sample(map[string]any{"victim": victim, "mutations": what, "results": results}).End()
	})
}

// Map files of multi-repository clients.
func TestC13MapFile(t *testing.T) {
	roots := map[string][]byte{}
	for _, n := range []string{"a", "b", "c d"} {
		roots[n] = ref.SignAll(ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{
			"root": {Keys: []*ref.Key{ref.Ed(1)}, Threshold: 1}, "timestamp": {Keys: []*ref.Key{ref.Ed(1)}, Threshold: 1},
			"snapshot": {Keys: []*ref.Key{ref.Ed(1)}, Threshold: 1}, "targets": {Keys: []*ref.Key{ref.Ed(1)}, Threshold: 1}}), ref.Ed(1))
	}
	run(t, 400, func(t *rapid.T) {
		defer countLogs(100000)()
		dead := "http://127.0.0.1:1/"
		m := ref.M{"repositories": ref.M{"a": []any{dead}, "b": []any{dead, dead}, "c d": []any{dead}}, "mapping": []any{
			ref.M{"paths": []any{"*"}, "repositories": []any{"a", "b"}, "threshold": 2, "terminating": false},
			ref.M{"paths": []any{"x/*", "[", "y"}, "repositories": []any{"c d"}, "threshold": 1, "terminating": true},
		}}
		m = ref.CloneM(m)
		what := []string{}
		for i, n := 0, intn(t, "mutations", 0, 3); i < n; i++ {
			what = append(what, mutate(t, m, ""))
		}
		b := ref.Encode(m)
		if chance(t, "raw", 25) {
			b = rawMutate(t, b)
			what = append(what, "changed text")
			if bytes.Contains(b, []byte("http")) && !bytes.Contains(b, []byte(dead)) {
				t.Skip("address damaged")
			}
		}
		rts := copyMap(roots)
		switch intn(t, "roots", 0, 6) {
		case 0:
			delete(rts, "a")
		case 1:
			rts["a"] = pick(t, "bad root", []byte(nil), []byte("{}"), []byte("null"), []byte("x"))
		case 2:
			rts["x"], rts[""] = roots["a"], roots["a"]
		}
		dir := newDir()
		defer rmDir(dir)
		results := []string{}
		p := guard(func() {
			cfg, err := multirepo.NewConfig(b, rts)
			results = append(results, errStr(err))
			if err != nil {
				if cfg != nil {
					t.Fatalf("both a configuration and an error %v", err)
				}
				return
			}
			cfg.LocalMetadataDir = filepath.Join(dir, "meta")
			cfg.LocalTargetsDir = filepath.Join(dir, "targets")
			cfg.DisableLocalCache = chance(t, "no cache", 30)
			c, err := multirepo.New(cfg)
			results = append(results, errStr(err))
			if err != nil {
				return
			}
			if chance(t, "refresh", 50) {
				results = append(results, errStr(c.Refresh()))
			}
			for _, a := range []string{"x/1", "y", "", "f"} {
				_, _, err := c.GetTargetInfo(a)
				results = append(results, errStr(err))
			}
			for n := range c.TUFClients {
				_, _, err = c.DownloadTarget([]string{n}, &metadata.TargetFiles{Path: "y"}, "", "")
				results = append(results, errStr(err))
			}
		})
		if p != "" {
			t.Fatalf("map file %s: %s", b, p)
		}
		ev.New("C13MapFile").Add(b, len(rts)).ClassIf(len(results) == 1, "map refused").ClassIf(len(results) > 2, "clients made").
			NonTrivial(len(what) > 0).Sample(map[string]any{"mutations": what, "results": results}).End()
	})
}

// caseVariant reports whether some field has the name of a known field, but
// for its case (a known finding).
func caseVariant(v any) bool {
	switch x := v.(type) {
	case ref.M:
		for k, e := range x {
			for _, names := range knownNames {
				for _, n := range names {
					if k != n && strings.EqualFold(k, n) {
						return true
					}
				}
			}
			if caseVariant(e) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if caseVariant(e) {
				return true
			}
		}
	}
	return false
}

// FuzzC13 is driven by coverage in the thorough tier: arbitrary bytes parsed as
// each type, serialised, parsed again and used.
func FuzzC13(f *testing.F) {
	for i := 0; i < 40; i++ {
		typ := docTypes[i%4]
		seed := rapid.Custom(func(t *rapid.T) []byte { return ref.SignAll(onlyInts(richDoc(t, typ, richOpt{extras: 20})), ref.Ed(1)) }).Example(i)
		f.Add(byte(i%4), seed)
	}
	f.Add(byte(0), []byte("null"))
	signer := must(signature.LoadSigner(ref.Ed(3).Priv.(ed25519.PrivateKey), crypto.Hash(0)))
	root := must(parseDoc("root", ref.SignAll(ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{"root": {Keys: []*ref.Key{ref.Ed(1)}, Threshold: 1}}), ref.Ed(1))))
	f.Fuzz(func(t *testing.T, typ byte, data []byte) {
		as := docTypes[typ%4]
		if v, err := ref.Decode(data); err == nil && caseVariant(v) {
			t.Skip("known finding: names differing only in case")
		}
		in := append([]byte(nil), data...)
		d, err := parseDoc(as, in)
		if !bytes.Equal(in, data) {
			t.Fatal("parsing changed its input")
		}
		if err != nil {
			if !reflect.DeepEqual(d.Any(), newDoc(as).Any()) {
				t.Fatalf("a failed parse (%v) changed the receiver", err)
			}
			return
		}
		out, err := d.ToBytes(false)
		if err != nil {
			t.Fatalf("what was parsed cannot be serialised: %v", err)
		}
		e, err := parseDoc(as, out)
		if err != nil {
			t.Fatalf("what was parsed cannot be parsed after serialising: %v\n%s", err, out)
		}
		if again := must(e.ToBytes(false)); !bytes.Equal(again, out) {
			t.Fatalf("serialising is not stable:\n%s\n%s", out, again)
		}
		exercise(signer, d, []doc{root})
	})
}
