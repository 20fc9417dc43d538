package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// keyModel is what a delegator should hold: per role its key ids in order of
// addition.
type keyModel struct {
	names []string
	ids   map[string][]string
}

func (m *keyModel) has(role, id string) bool {
	for _, x := range m.ids[role] {
		if x == id {
			return true
		}
	}
	return false
}

func (m *keyModel) store() map[string]bool {
	s := map[string]bool{}
	for _, l := range m.ids {
		for _, id := range l {
			s[id] = true
		}
	}
	return s
}

func (m *keyModel) add(role, id string) bool {
	if _, ok := m.ids[role]; !ok {
		return false
	}
	if !m.has(role, id) {
		m.ids[role] = append(m.ids[role], id)
	}
	return true
}

func (m *keyModel) revoke(role, id string) bool {
	if !m.has(role, id) {
		return false
	}
	l := []string{}
	for _, x := range m.ids[role] {
		if x != id {
			l = append(l, x)
		}
	}
	m.ids[role] = l
	return true
}

// modelKeys are the keys of these tests: some carry extra fields and so have
// another identifier for the same public key.
func modelKeys() []*ref.Key {
	var out []*ref.Key
	for i := 0; i < 4; i++ {
		out = append(out, ref.Ed(i))
	}
	k := *ref.Ed(0)
	twin := &ref.Key{Kind: k.Kind, Type: k.Type, Scheme: k.Scheme, Pub: k.Pub, Priv: k.Priv, Extra: ref.M{"x-comment": "twin"}}
	return append(out, twin, ref.ECDSA(1), ref.RSA(0))
}

func TestC16Keys(t *testing.T) {
	run(t, 5000, func(t *rapid.T) {
		pool := modelKeys()
		kind := pick(t, "delegator", "root", "root", "roles", "roles", "roles", "succinct", "no roles", "empty roles", "no delegations")
		m := &keyModel{ids: map[string][]string{}}
		var doc ref.M
		foreign := map[string]bool{}
		start := func(role string) []any {
			// a consistent initial state
			m.ids[role] = []string{}
			m.names = append(m.names, role)
			l := []any{}
			for i, n := 0, intn(t, "initial keys", 0, 2); i < n; i++ {
				id := pool[intn(t, "initial key", 0, len(pool)-1)].ID()
				if !m.has(role, id) {
					m.ids[role] = append(m.ids[role], id)
					l = append(l, id)
				}
			}
			if chance(t, "foreign id", 12) {
				// an id that resembles another one, without a key
				id := pool[intn(t, "resembles", 0, len(pool)-1)].ID()
				id = pick(t, "foreign", id+"0", id[:63], "x"+id, strings.ToUpper(id))
				m.ids[role] = append(m.ids[role], id)
				foreign[id] = true
				l = append(l, id)
			}
			return l
		}
		store := ref.M{}
		roleNames := pick(t, "names", []string{"a", "b", "c"}, []string{"a", "A", "a "}, []string{"aa", "a", "aaa"})
		switch kind {
		case "root":
			roles := ref.M{}
			rs := docTypes
			if chance(t, "other roles", 25) {
				// root metadata may hold roles beyond the four
				rs = append(append([]string{}, docTypes...), pick(t, "other role", "mirrors", "a", "x-role"))
			}
			for _, r := range rs {
				if !chance(t, "absent role", 10) {
					roles[r] = ref.M{"keyids": start(r), "threshold": intn(t, "threshold", 1, 3)}
				}
			}
			doc = ref.M{"_type": "root", "spec_version": "1.0.31", "version": 1, "expires": ref.FarFuture, "consistent_snapshot": true, "keys": store, "roles": roles}
		case "no delegations":
			doc = ref.Targets(1, ref.FarFuture, ref.M{}, nil)
		default:
			d := ref.M{"keys": store}
			switch kind {
			case "roles", "empty roles":
				l := []any{}
				if kind == "roles" {
					for i, n := 0, intn(t, "roles", 1, 3); i < n; i++ {
						name := roleNames[i]
						l = append(l, ref.M{"name": name, "keyids": start(name), "threshold": intn(t, "threshold", 1, 3), "terminating": chance(t, "terminating", 30), "paths": []any{"*"}})
					}
				}
				d["roles"] = l
			case "succinct":
				d["succinct_roles"] = ref.M{"keyids": start("bins"), "threshold": intn(t, "threshold", 1, 3), "bit_length": 4, "name_prefix": "bin"}
			}
			doc = ref.Targets(1, ref.FarFuture, ref.M{}, d)
		}
		for id := range m.store() {
			for _, k := range pool {
				if k.ID() == id {
					store[id] = k.Doc()
				}
			}
		}
		// metadata read from elsewhere may list keys it does not hold
		missing := foreign
		if chance(t, "incomplete store", 20) {
			for _, k := range pool {
				if store[k.ID()] != nil && chance(t, "not held", 50) {
					delete(store, k.ID())
					missing[k.ID()] = true
				}
			}
		}
		incomplete := len(missing) > 0
		typ := ref.Str(doc["_type"])
		obj, err := parseDoc(typ, ref.Encode(ref.Envelope(doc)))
		if err != nil {
			t.Fatal(err)
		}
		if kind == "root" && chance(t, "library root", 25) {
			obj = madeDoc("root", time.Unix(1e9, 0).UTC())
			clear(missing)
			clear(m.ids)
			for _, r := range docTypes {
				m.ids[r] = []string{}
			}
			m.names = append([]string{}, docTypes...)
		}
		if x, ok := obj.Any().(*metadata.Metadata[metadata.RootType]); ok && chance(t, "one list", 15) {
			// a program may use one list of keys for several roles
			var first []string
			for i, n := range m.names {
				if r := x.Signed.Roles[n]; i == 0 {
					first = append([]string{}, r.KeyIDs...)
					first = first[:len(first):len(first)]
					r.KeyIDs = first
				} else {
					for _, id := range first {
						for _, k := range pool {
							if k.ID() == id && x.Signed.Keys[id] == nil && !missing[id] {
								x.Signed.Keys[id] = sutKey(k)
							}
						}
					}
					r.KeyIDs = first
				}
				m.ids[n] = append([]string{}, first...)
			}
			for id := range x.Signed.Keys {
				if !m.store()[id] {
					delete(x.Signed.Keys, id)
				}
			}
		}
		if chance(t, "nil store", 10) && len(m.store()) == 0 {
			switch x := obj.Any().(type) {
			case *metadata.Metadata[metadata.RootType]:
				x.Signed.Keys = nil
			case *metadata.Metadata[metadata.TargetsType]:
				if x.Signed.Delegations != nil {
					x.Signed.Delegations.Keys = nil
				}
			}
		}
		addKey := func(k *metadata.Key, role string) error {
			switch x := obj.Any().(type) {
			case *metadata.Metadata[metadata.RootType]:
				return x.Signed.AddKey(k, role)
			case *metadata.Metadata[metadata.TargetsType]:
				return x.Signed.AddKey(k, role)
			}
			panic("")
		}
		revokeKey := func(id, role string) error {
			switch x := obj.Any().(type) {
			case *metadata.Metadata[metadata.RootType]:
				return x.Signed.RevokeKey(id, role)
			case *metadata.Metadata[metadata.TargetsType]:
				return x.Signed.RevokeKey(id, role)
			}
			panic("")
		}
		var hist []string
		check := func() {
			ids, keys := map[string][]string{}, map[string]*metadata.Key{}
			switch x := obj.Any().(type) {
			case *metadata.Metadata[metadata.RootType]:
				for n, r := range x.Signed.Roles {
					ids[n] = r.KeyIDs
				}
				keys = x.Signed.Keys
			case *metadata.Metadata[metadata.TargetsType]:
				if d := x.Signed.Delegations; d != nil {
					keys = d.Keys
					for _, r := range d.Roles {
						ids[r.Name] = r.KeyIDs
					}
					if d.SuccinctRoles != nil {
						ids["bins"] = d.SuccinctRoles.KeyIDs
					}
				}
			}
			if len(ids) != len(m.ids) {
				t.Fatalf("roles %v, want %v after %s", ids, m.ids, strings.Join(hist, "; "))
			}
			for n, want := range m.ids {
				got, ok := ids[n]
				if !ok || strings.Join(got, ",") != strings.Join(want, ",") {
					t.Fatalf("role %q lists %v, want %v after %s", n, got, want, strings.Join(hist, "; "))
				}
			}
			want := m.store()
			for id := range want {
				if missing[id] && keys[id] == nil {
					continue
				}
				if keys[id] == nil {
					t.Fatalf("key %s is used but not stored after %s", id[:8], strings.Join(hist, "; "))
				}
				if keys[id].ID() != id {
					t.Fatalf("key store holds key %s under %s after %s", keys[id].ID(), id, strings.Join(hist, "; "))
				}
			}
			for id := range keys {
				if !want[id] {
					t.Fatalf("key %s is stored but not used after %s", id[:8], strings.Join(hist, "; "))
				}
			}
		}
		check()
		// everything but the key lists and the key store
		var rest func(v any) any
		rest = func(v any) any {
			switch x := v.(type) {
			case ref.M:
				o := ref.M{}
				for k, e := range x {
					if k != "keyids" && k != "keys" {
						o[k] = rest(e)
					}
				}
				return o
			case []any:
				l := []any{}
				for _, e := range x {
					l = append(l, rest(e))
				}
				return l
			}
			return v
		}
		frame := rest(must(ref.Decode(must(obj.ToBytes(false)))))
		names := append(append([]string{}, m.names...), "absent", "", pick(t, "other name", "A", "Root", "TARGETS", "a", "root ", "bin-0"))
		refused, revoked := 0, 0
		for i, n := 0, intn(t, "operations", 1, 14); i < n; i++ {
			k := pool[intn(t, "key", 0, len(pool)-1)]
			role := names[intn(t, "role", 0, len(names)-1)]
			model := role
			if kind == "succinct" {
				// the role argument is ignored there
				model = "bins"
			}
			before := must(obj.ToBytes(false))
			op := intn(t, "operation", 0, 9)
			switch {
			case op < 5:
				hist = append(hist, fmt.Sprintf("add %s to %q", k.ID()[:4], role))
				err := addKey(sutKey(k), role)
				ok := m.add(model, k.ID())
				if ok {
					delete(missing, k.ID())
				}
				if ok != (err == nil) {
					t.Fatalf("adding: %v, want success %v after %s", err, ok, strings.Join(hist, "; "))
				}
				if !ok {
					refused++
					if !bytes.Equal(before, must(obj.ToBytes(false))) {
						t.Fatalf("a refused addition changed the metadata after %s", strings.Join(hist, "; "))
					}
				}
			case op < 9:
				id := k.ID()
				if l := m.ids[model]; len(l) > 0 && chance(t, "listed", 60) {
					id = l[intn(t, "which", 0, len(l)-1)]
				}
				if chance(t, "odd id", 10) {
					id = pick(t, "id", "", "unknown", strings.ToUpper(id), id+"0")
				}
				hist = append(hist, fmt.Sprintf("revoke %.4s from %q", id, role))
				err := revokeKey(id, role)
				ok := m.revoke(model, id)
				if ok != (err == nil) {
					t.Fatalf("revoking: %v, want success %v after %s", err, ok, strings.Join(hist, "; "))
				}
				if ok {
					revoked++
				} else {
					refused++
					if !bytes.Equal(before, must(obj.ToBytes(false))) {
						t.Fatalf("a refused revocation changed the metadata after %s", strings.Join(hist, "; "))
					}
				}
			default:
				hist = append(hist, "serialise and parse")
				x, err := parseDoc(typ, before)
				if err != nil {
					t.Fatalf("%v after %s", err, strings.Join(hist, "; "))
				}
				obj = x
			}
			check()
			if d := sameJSON(frame, rest(must(ref.Decode(must(obj.ToBytes(false)))))); d != "" {
				t.Fatalf("something other than keys changed (%s) after %s", d, strings.Join(hist, "; "))
			}
		}
		ev.New("C16Keys").Add(kind, strings.Join(hist, ";"), must(obj.ToBytes(false))).Class("delegator: "+kind).ClassIf(incomplete, "incomplete key store").ClassIf(refused > 0, "refused calls").ClassIf(revoked > 0, "revocations").
			NonTrivial(len(hist) > 1).Sample(map[string]any{"delegator": kind, "operations": hist}).End()
	})
}

// ---- C17 ----

func someData(t *rapid.T, label string) []byte {
	switch intn(t, label+" kind", 0, 6) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return bytes.Repeat([]byte("0123456789abcdef"), intn(t, label+" blocks", 1, 9000))
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(t, label)
}

// nearData draws bytes near but different from b.
func nearData(t *rapid.T, b []byte) []byte {
	o := append([]byte{}, b...)
	k := intn(t, "near", 0, 6)
	if len(o) == 0 {
		k = 2
	}
	switch k {
	case 0:
		o[intn(t, "at", 0, len(o)-1)] ^= 1 << intn(t, "bit", 0, 7)
	case 1:
		o = o[:intn(t, "cut", 0, len(o)-1)]
	case 2:
		o = append(o, pick[byte](t, "byte", 0, '\n', 'x'))
	case 3:
		o = append([]byte{0}, o...)
	case 4:
		i := intn(t, "drop", 0, len(o)-1)
		o = append(o[:i], o[i+1:]...)
	case 5:
		o = append(o, o...)
	case 6:
		i, j := intn(t, "i", 0, len(o)-1), intn(t, "j", 0, len(o)-1)
		if o[i] == o[j] {
			o[i]++
		} else {
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

func TestC17Describe(t *testing.T) {
	run(t, 8000, func(t *rapid.T) {
		data := someData(t, "data")
		if chance(t, "large", 2) && chance(t, "very large", 20) {
			data = bytes.Repeat([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, intn(t, "size", 1, 1<<20))
		}
		var algs []string
		for i, n := 0, intn(t, "algs", 0, 3); i < n; i++ {
			if chance(t, "unsupported", 12) {
				algs = append(algs, pick(t, "bad alg", "md5", "", "SHA256", "sha384", "sha1", "sha256 "))
			} else {
				algs = append(algs, pick(t, "alg", "sha256", "sha512"))
			}
		}
		path := pick(t, "path", "f", "a/b", "../x", "", "é ü", "/abs")
		holder := metadata.TargetFile()
		if chance(t, "used receiver", 40) {
			holder = &metadata.TargetFiles{Length: 7, Hashes: metadata.Hashes{"sha1": {1}}, Path: "old"}
		}
		bad := false
		for _, a := range algs {
			bad = bad || a != "sha256" && a != "sha512"
		}
		var f *metadata.TargetFiles
		var err error
		fromFile := chance(t, "file", 40)
		if fromFile {
			dir := newDir()
			defer rmDir(dir)
			path = filepath.Join(dir, "some file")
			os.WriteFile(path, data, 0o644)
			path = pick(t, "written as", path, path, dir+"/./some file", dir+"//some file", dir+"/../"+filepath.Base(dir)+"/some file")
			if chance(t, "absent", 8) {
				path += "x"
				if f, err = holder.FromFile(path, algs...); err == nil || f != nil {
					t.Fatalf("an absent file is described as %v", f)
				}
				return
			}
			f, err = holder.FromFile(path, algs...)
		} else {
			in := append([]byte{}, data...)
			f, err = holder.FromBytes(path, in, algs...)
			if !bytes.Equal(in, data) {
				t.Fatalf("the data was changed")
			}
		}
		rec := ev.New("C17Describe").Add(data, fmt.Sprint(algs), path, fromFile)
		if bad {
			if err == nil || f != nil {
				t.Fatalf("unsupported algorithms %q give %v", algs, f)
			}
			rec.Class("unsupported algorithm").NonTrivial(true).End()
			return
		}
		if err != nil {
			t.Fatal(err)
		}
		want := map[string]string{}
		for _, a := range algs {
			want[a] = ref.HashOf(a, data)
		}
		if len(algs) == 0 {
			want["sha256"] = ref.HashOf("sha256", data)
		}
		got := map[string]string{}
		for a, h := range f.Hashes {
			got[a] = ref.Hex(h)
		}
		if f.Length != int64(len(data)) || !reflect.DeepEqual(got, want) || f.Path != path {
			t.Fatalf("described as length %d hashes %v path %q, want %d %v %q", f.Length, got, f.Path, len(data), want, path)
		}
		mismatch := func(what string, err error) {
			if err == nil {
				t.Fatalf("%s is accepted", what)
			}
			if !errors.Is(err, metadata.ErrLengthOrHashMismatch{}) {
				t.Fatalf("%s: %T %v", what, err, err)
			}
		}
		if err := f.VerifyLengthHashes(data); err != nil {
			t.Fatalf("the description does not verify its data: %v", err)
		}
		other := nearData(t, data)
		mismatch("other data", f.VerifyLengthHashes(other))
		// through JSON
		g := &metadata.TargetFiles{}
		if err := json.Unmarshal(must(json.Marshal(f)), g); err != nil {
			t.Fatal(err)
		}
		if err := g.VerifyLengthHashes(data); err != nil {
			t.Fatalf("after serialisation: %v", err)
		}
		mismatch("other data after serialisation", g.VerifyLengthHashes(other))
		if !f.Equal(*g) || !g.Equal(*f) {
			t.Fatalf("the parsed description differs from the original")
		}
		// one damaged fact
		g.Length += pick[int64](t, "length", 1, -1, 100, -int64(len(data))-1, 1<<32, 1<<40)
		mismatch("a wrong length", g.VerifyLengthHashes(data))
		g.Length = f.Length
		var names []string
		for a := range want {
			names = append(names, a)
		}
		a := pick(t, "damaged", "sha256", "sha512")
		if want[a] == "" {
			a = names[0]
		}
		h := append(metadata.HexBytes{}, g.Hashes[a]...)
		switch intn(t, "digest damage", 0, 4) {
		case 0:
			h[intn(t, "byte", 0, len(h)-1)] ^= 1 << intn(t, "bit", 0, 7)
		case 1:
			h = h[:intn(t, "cut", 0, len(h)-1)]
		case 2:
			h = append(h, 0)
		case 3:
			h = nil
		case 4:
			h = ref.SHA256(append([]byte("x"), data...))
		}
		g.Hashes[a] = h
		mismatch("one wrong digest", g.VerifyLengthHashes(data))
		g.Hashes[a] = f.Hashes[a]
		g.Hashes[pick(t, "unknown", "md5", "", "sha3-256", "SHA256", "sha256 ")] = ref.SHA256(data)
		mismatch("an unknown algorithm", g.VerifyLengthHashes(data))
		rec.ClassIf(len(want) > 1, "several algorithms").ClassIf(len(data) == 0, "empty data").ClassIf(len(data) > 1<<22, "more than 4 MB").ClassIf(fromFile, "from a file").NonTrivial(true)
		rec.Sample(map[string]any{"length": len(data), "algorithms": algs, "other length": len(other)}).End()
	})
}

func TestC17MetaFile(t *testing.T) {
	run(t, 20000, func(t *rapid.T) {
		data := someData(t, "data")
		f := metadata.MetaFile(int64(intn(t, "version", 1, 5)))
		if chance(t, "no map", 20) {
			f.Hashes = nil
		}
		good := true
		var what []string
		if chance(t, "with length", 60) && (len(data) > 0 || chance(t, "wrong for no data", 60)) {
			f.Length = int64(len(data))
			what = append(what, "length")
			if len(data) == 0 || chance(t, "wrong length", 25) {
				f.Length += pick[int64](t, "by", 1, -1, 7, 1<<32, -int64(len(data))-3)
				if f.Length == 0 {
					f.Length = -1
				}
				good = false
				what = append(what, "wrong length")
			}
		}
		for _, a := range []string{"sha256", "sha512"} {
			if chance(t, "with "+a, 45) {
				if f.Hashes == nil {
					f.Hashes = metadata.Hashes{}
				}
				what = append(what, a)
				h := append(metadata.HexBytes{}, must(metadata.TargetFile().FromBytes("", data, a)).Hashes[a]...)
				if chance(t, "wrong digest", 25) {
					good = false
					what = append(what, "wrong digest")
					switch intn(t, "damage", 0, 2) {
					case 0:
						h[intn(t, "byte", 0, len(h)-1)] ^= 1 << intn(t, "bit", 0, 7)
					case 1:
						h = h[:len(h)-1]
					case 2:
						h = metadata.HexBytes{}
					}
				}
				f.Hashes[a] = h
			}
		}
		if chance(t, "unknown algorithm", 10) {
			if f.Hashes == nil {
				f.Hashes = metadata.Hashes{}
			}
			f.Hashes[pick(t, "alg", "md5", "", "SHA512", "blake2b")] = metadata.HexBytes(ref.SHA256(data))
			good = false
			what = append(what, "unknown algorithm")
		}
		err := f.VerifyLengthHashes(data)
		if good != (err == nil) {
			t.Fatalf("%v on %d bytes: %v, want success %v", what, len(data), err, good)
		}
		if err != nil && !errors.Is(err, metadata.ErrLengthOrHashMismatch{}) {
			t.Fatalf("%v: %T %v", what, err, err)
		}
		if len(f.Hashes) == 0 && f.Length == 0 {
			if err := f.VerifyLengthHashes(nearData(t, data)); err != nil {
				t.Fatalf("a description without length and hashes refuses data: %v", err)
			}
		} else if good {
			other := nearData(t, data)
			if err := f.VerifyLengthHashes(other); (err == nil) != (len(f.Hashes) == 0 && len(other) == len(data)) {
				t.Fatalf("%v on %d bytes of other data: %v", what, len(other), err)
			}
		}
		// the same after a cycle
		g := &metadata.MetaFiles{}
		if err := json.Unmarshal(must(json.Marshal(f)), g); err != nil {
			t.Fatal(err)
		}
		if err := g.VerifyLengthHashes(data); good != (err == nil) {
			t.Fatalf("%v after serialisation: %v, want success %v", what, err, good)
		}
		ev.New("C17MetaFile").Add(data, fmt.Sprint(what), must(json.Marshal(f))).ClassIf(good, "matching").ClassIf(!good, "mismatching").ClassIf(len(what) == 0, "nothing recorded").
			NonTrivial(len(what) > 0).Sample(map[string]any{"recorded": what, "length": len(data)}).End()
	})
}

func TestC17Equal(t *testing.T) {
	run(t, 50000, func(t *rapid.T) {
		gen := func(label string) *metadata.TargetFiles {
			f := metadata.TargetFile()
			f.Length = pick[int64](t, label+" length", 5, 5, 5, 0, -5, 5+1<<32)
			for _, a := range []string{"sha256", "sha512", "x"} {
				if !chance(t, label+" "+a, 55) {
					continue
				}
				h := pick(t, label+" digest", []byte{1, 2}, []byte{1, 2}, []byte{1, 2}, []byte{1, 3}, []byte{1}, []byte{}, nil, []byte{1, 2, 0})
				f.Hashes[a] = append(metadata.HexBytes{}, h...)
			}
			if chance(t, label+" nil", 5) {
				f.Hashes = nil
			}
			f.Path = pick(t, label+" path", "a", "b")
			if chance(t, label+" custom", 30) {
				r := json.RawMessage(`{"c":1}`)
				f.Custom = &r
				f.UnrecognizedFields = map[string]any{"u": label}
			}
			return f
		}
		a := gen("left")
		b := gen("right")
		if chance(t, "derived", 50) {
			b.Length = a.Length
			for _, n := range []string{"sha256", "sha512", "x"} {
				h, ok := a.Hashes[n]
				if ok && b.Hashes != nil && b.Hashes[n] != nil && chance(t, "same "+n, 80) {
					b.Hashes[n] = append(metadata.HexBytes{}, h...)
				}
			}
		}
		shared, agree := 0, true
		for n, h := range a.Hashes {
			if g, ok := b.Hashes[n]; ok {
				shared++
				agree = agree && bytes.Equal(g, h)
			}
		}
		hashes := shared > 0 && agree
		want := a.Length == b.Length && hashes
		if got := a.Equal(*b); got != want {
			t.Fatalf("%+v and %+v: equal %v, want %v", a, b, got, want)
		}
		if got := b.Equal(*a); got != want {
			t.Fatalf("%+v and %+v: equal %v in this order, want %v", b, a, got, want)
		}
		if a.Hashes.Equal(b.Hashes) != hashes || b.Hashes.Equal(a.Hashes) != hashes {
			t.Fatalf("hashes %+v and %+v: want equal %v", a.Hashes, b.Hashes, hashes)
		}
		ev.New("C17Equal").Add(fmt.Sprint(a.Length, a.Hashes, b.Length, b.Hashes)).ClassIf(want, "equal").ClassIf(!want, "different").ClassIf(shared > 1, "several shared").
			NonTrivial(shared > 0).End()
	})
}
