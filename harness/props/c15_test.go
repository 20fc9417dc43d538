package props

import (
	"bytes"
	"crypto"
	"crypto/ed25519"
	"crypto/rsa"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// brokenSigner fails in a drawn way.
type brokenSigner struct {
	inner signature.Signer
	how   string
}

func (b brokenSigner) SignMessage(m io.Reader, o ...signature.SignOption) ([]byte, error) {
	if b.how == "sign" {
		return nil, errors.New("the token is unplugged")
	}
	return b.inner.SignMessage(m, o...)
}

func (b brokenSigner) PublicKey(o ...signature.PublicKeyOption) (crypto.PublicKey, error) {
	switch b.how {
	case "public key":
		return nil, errors.New("the token is unplugged")
	case "unsupported key":
		return struct{}{}, nil
	}
	return b.inner.PublicKey(o...)
}

// canonical signing keys: those whose id the library itself derives.
func signerKey(t *rapid.T, label string) *ref.Key {
	switch k := intn(t, label+" kind", 0, 9); {
	case k < 6:
		return ref.Ed(intn(t, label, 0, 19))
	case k < 9:
		return ref.ECDSA(pick(t, label, 0, 2, 4, 6, 8, 10, 11))
	}
	return ref.RSA(intn(t, label, 0, ref.NumRSA-1))
}

func signerFor(t *rapid.T, k *ref.Key) signature.Signer {
	if k.Kind == "ed25519" {
		return must(signature.LoadSigner(k.Priv.(ed25519.PrivateKey), crypto.Hash(0)))
	}
	if k.Kind == "rsa" && chance(t, "pss", 50) {
		return must(signature.LoadRSAPSSSigner(k.Priv.(*rsa.PrivateKey), crypto.SHA256, nil))
	}
	return must(signature.LoadSigner(k.Priv, crypto.SHA256))
}

// cycle takes the document through serialisation.
func cycle(t *rapid.T, d doc) doc {
	switch intn(t, "cycle", 0, 4) {
	case 0:
		return must(parseDoc(d.Type(), must(d.ToBytes(false))))
	case 1:
		return must(parseDoc(d.Type(), must(d.ToBytes(true))))
	case 2:
		v := must(ref.Decode(must(d.ToBytes(false))))
		return must(parseDoc(d.Type(), reformat(t, v)))
	case 3:
		dir := newDir()
		defer rmDir(dir)
		f := filepath.Join(dir, "f")
		if err := d.ToFile(f, chance(t, "pretty", 50)); err != nil {
			t.Fatal(err)
		}
		x := newDoc(d.Type())
		if err := x.FromFile(f); err != nil {
			t.Fatal(err)
		}
		return x
	}
	return d
}

// bulky sometimes makes the signed part very long, before or after the fields
// of the format in canonical order.
func bulky(t *rapid.T, signed ref.M) {
	if chance(t, "bulky", 3) {
		signed[pick(t, "bulky field", "A-notes", "zz-notes")] = strings.Repeat(pick(t, "filling", "x", "é", "\"", "ab cd "), pick(t, "bulk", 4100, 9000, 66000, 140000))
	}
}

func TestC15Sign(t *testing.T) {
	run(t, 350, func(t *rapid.T) {
		typ := pick(t, "type", append([]string{"targets"}, docTypes...)...)
		var d doc
		signed := onlyInts(ref.CloneM(richDoc(t, typ, richOpt{extras: pick(t, "extras", 0, 30)})))
		bulky(t, signed)
		if chance(t, "made by the library", 35) {
			d = madeDoc(typ, time.Date(2030, 1, 2, 3, 4, 5, pick(t, "ns", 0, 500000000), time.UTC))
		} else {
			old := []any{}
			if chance(t, "foreign signature", 40) {
				old = append(old, ref.M{"keyid": "foreign", "sig": "00ff", "x": "y"})
			}
			var err error
			if d, err = parseDoc(typ, reformat(t, ref.Clone(ref.Envelope(signed, old...)))); err != nil {
				t.Fatal(err)
			}
		}
		var signers []*ref.Key
		used := map[string]bool{}
		for i, n := 0, intn(t, "signers", 1, 4); i < n; i++ {
			k := signerKey(t, "signer")
			if !used[k.ID()] {
				used[k.ID()] = true
				signers = append(signers, k)
			}
		}
		outsider := ref.Ed(30 + intn(t, "outsider", 0, 9))
		done := 0
		active := signers
		broken := ""
		verify := func(d doc, n int) {
			for _, thr := range []int{n, n + 1} {
				if thr < 1 {
					continue
				}
				all := append(append([]*ref.Key{}, active...), outsider)
				err := delegatorFor("r", thr, all...).VerifyDelegate("r", d.Any())
				err2 := targetsDelegator("r", thr, all...).VerifyDelegate("r", d.Any())
				if thr == n && (err != nil || err2 != nil) {
					t.Fatalf("signed by %d authorised keys, threshold %d: %v / %v", n, thr, err, err2)
				}
				if thr > n && (err == nil || err2 == nil) {
					t.Fatalf("signed by %d authorised keys, threshold %d: accepted", n, thr)
				}
			}
			// none of the signatures counts for a role of other keys
			if delegatorFor("r", 1, outsider).VerifyDelegate("r", d.Any()) == nil {
				t.Fatalf("accepted for a key that did not sign")
			}
		}
		for i, k := range signers {
			if chance(t, "clear", 10) {
				d.ClearSignatures()
				if len(d.Signatures()) != 0 {
					t.Fatalf("signatures left after clearing: %v", d.Signatures())
				}
				active, done = signers[i:], 0
			}
			before := append([]metadata.Signature{}, d.Signatures()...)
			content := must(d.ToBytes(false))
			s := signerFor(t, k)
			if chance(t, "broken signer", 15) {
				broken = pick(t, "how", "sign", "public key", "unsupported key")
				sig, err := d.Sign(brokenSigner{s, broken})
				if err == nil || sig != nil {
					t.Fatalf("a failing signer (%s) signs: %v", broken, sig)
				}
				if !bytes.Equal(must(d.ToBytes(false)), content) {
					t.Fatalf("a failed signing changed the document")
				}
			}
			sig, err := d.Sign(s)
			if err != nil || sig == nil {
				t.Fatalf("signing: %v", err)
			}
			done++
			now := d.Signatures()
			if len(now) != len(before)+1 || !reflect.DeepEqual(append([]metadata.Signature{}, now[:len(before)]...), before) {
				t.Fatalf("signing changed the signatures from %v to %v", before, now)
			}
			last := now[len(before)]
			if last.KeyID != k.ID() || last.KeyID != sig.KeyID || !bytes.Equal(last.Signature, sig.Signature) {
				t.Fatalf("added %v, returned %v, key %s", last, sig, k.ID())
			}
			if len(last.UnrecognizedFields) != 0 {
				t.Fatalf("the new signature has fields %v", last.UnrecognizedFields)
			}
			if chance(t, "verify now", 50) {
				verify(d, done)
			}
			d = cycle(t, d)
			if v, err := ref.Decode(content); err == nil {
				w := must(ref.Decode(must(d.ToBytes(false))))
				if diff := sameJSON(ref.Obj(v)["signed"], ref.Obj(w)["signed"]); diff != "" {
					t.Fatalf("signing changed the content: %s", diff)
				}
				// the reference signs and verifies the same content
				payload := ref.Canon(ref.Obj(w)["signed"])
				if !ref.VerifySig(k.Doc(), payload, sig.Signature) {
					t.Fatalf("the signature is not over the canonical form %s", payload)
				}
			}
		}
		verify(d, done)
		if chance(t, "new version", 15) {
			// a changed document signed again by all, on top of the signatures
			// that no longer hold
			bumpVersion(d)
			for _, k := range active {
				if _, err := d.Sign(signerFor(t, k)); err != nil {
					t.Fatalf("signing the new version: %v", err)
				}
			}
			verify(d, done)
			d.ClearSignatures()
			for _, k := range active {
				if _, err := d.Sign(signerFor(t, k)); err != nil {
					t.Fatalf("signing the new version: %v", err)
				}
			}
			d = cycle(t, d)
			verify(d, done)
		}
		if chance(t, "sign twice", 25) {
			// one more signature under the same identifier, although it makes
			// no further key count
			k := signers[intn(t, "again", 0, len(signers)-1)]
			if slices.Contains(active, k) {
				before := append([]metadata.Signature{}, d.Signatures()...)
				if sig, err := d.Sign(signerFor(t, k)); err != nil || sig == nil || sig.KeyID != k.ID() {
					t.Fatalf("signing again: %v", err)
				}
				now := d.Signatures()
				if len(now) != len(before)+1 || !reflect.DeepEqual(append([]metadata.Signature{}, now[:len(before)]...), before) || now[len(before)].KeyID != k.ID() {
					t.Fatalf("signing again changed the signatures from %v to %v", before, now)
				}
				verify(d, done)
				d.ClearSignatures()
				if _, err := d.Sign(signerFor(t, k)); err != nil {
					t.Fatalf("signing after clearing: %v", err)
				}
			}
		}
		rec := ev.New("C15Sign").Add(must(d.ToBytes(false))).Class("type "+typ).ClassIf(broken != "", "failing signer").ClassIf(done > 1, "several signers")
		rec.NonTrivial(true).Sample(string(must(d.ToBytes(false)))).End()
	})
}

// bumpVersion changes the signed part.
func bumpVersion(d doc) {
	switch m := d.Any().(type) {
	case *metadata.Metadata[metadata.RootType]:
		m.Signed.Version++
	case *metadata.Metadata[metadata.TimestampType]:
		m.Signed.Version++
	case *metadata.Metadata[metadata.SnapshotType]:
		m.Signed.Version++
	case *metadata.Metadata[metadata.TargetsType]:
		m.Signed.Version++
	}
}

// A place in a JSON document.
type place struct {
	kind   string // object kind whose known fields apply, "" if free-form
	parent any
	key    string
	index  int
	value  any
	path   string
}

// childKind names the kind of object found under a field.
func childKind(kind, field string) string {
	switch kind {
	case "root":
		switch field {
		case "keys":
			return "map:key"
		case "roles":
			return "map:role"
		}
	case "timestamp", "snapshot":
		if field == "meta" {
			return "map:metafile"
		}
	case "targets":
		switch field {
		case "targets":
			return "map:targetfile"
		case "delegations":
			return "delegs"
		}
	case "delegs":
		switch field {
		case "keys":
			return "map:key"
		case "roles":
			return "list:drole"
		case "succinct_roles":
			return "succinct"
		}
	case "key":
		if field == "keyval" {
			return "keyval"
		}
	case "metafile", "targetfile":
		if field == "hashes" {
			return "map:"
		}
	case "envelope":
		if field == "signatures" {
			return "list:signature"
		}
	}
	return ""
}

// places lists every value below v.
func places(v any, kind, path string) []place {
	var out []place
	switch x := v.(type) {
	case ref.M:
		for _, k := range sortedKeys(x) {
			ck := ""
			if strings.HasPrefix(kind, "map:") {
				ck = kind[4:]
			} else {
				ck = childKind(kind, k)
			}
			p := path + "." + k
			out = append(out, place{kind, x, k, 0, x[k], p})
			out = append(out, places(x[k], ck, p)...)
		}
	case []any:
		ck := strings.TrimPrefix(kind, "list:")
		if ck == kind {
			ck = ""
		}
		for i, e := range x {
			p := fmt.Sprintf("%s[%d]", path, i)
			out = append(out, place{kind, x, "", i, e, p})
			out = append(out, places(e, ck, p)...)
		}
	}
	return out
}

func known(kind, field string) bool {
	for _, k := range knownNames[kind] {
		if k == field {
			return true
		}
	}
	return false
}

func isZero(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case string:
		return x == "" || x == "0001-01-01T00:00:00Z" // the zero time
	case json.Number:
		n, _ := x.Float64()
		return n == 0
	}
	return false
}

// otherValue draws a value different from v, of the same kind mostly.
func otherValue(t *rapid.T, v any) any {
	switch x := v.(type) {
	case json.Number:
		n, err := x.Int64()
		if err != nil {
			return json.Number("7")
		}
		w := pick(t, "number", n+1, n-1, n^1, n^2, -n, 0, n/2, n^(1<<40))
		if const53 := int64(1) << 53; n <= const53 && n >= -const53 && (w > const53 || w < -const53) {
			w = 3 // integers beyond 2^53 in unrecognised fields are a known finding
		}
		if w == n {
			w = n/2 - 1
		}
		return json.Number(fmt.Sprint(w))
	case string:
		if ts, err := time.Parse(time.RFC3339, x); err == nil && chance(t, "time", 80) {
			return ts.Add(pick(t, "shift", time.Second, -time.Second, time.Hour, time.Nanosecond, time.Millisecond, 24*time.Hour)).UTC().Format(time.RFC3339Nano)
		}
		if len(x) > 0 && chance(t, "digit", 70) {
			i := intn(t, "at", 0, len(x)-1)
			c := x[i]
			switch {
			case c >= '0' && c <= '9':
				c = '0' + (c-'0'+byte(intn(t, "to", 1, 9)))%10
			case c >= 'a' && c <= 'f':
				c = 'a' + (c-'a'+byte(intn(t, "to", 1, 5)))%6
			case c >= 0x20 && c < 0x7f:
				c = 'x'
				if x[i] == 'x' {
					c = 'y'
				}
			default:
				return x + "!"
			}
			return x[:i] + string([]byte{c}) + x[i+1:]
		}
		return pick(t, "string", x+" ", "-"+x, x+"é", x+"\\", x+"\"")
	case bool:
		return !x
	case nil:
		return pick[any](t, "instead of null", false, json.Number("0"), "", ref.M{}, []any{})
	case ref.M:
		return pick[any](t, "instead of an object", "x", []any{}, json.Number("1"), ref.M{"verif": "x"})
	case []any:
		switch {
		case len(x) > 1 && chance(t, "rotate", 50):
			r := append(append([]any{}, x[1:]...), x[0])
			if !ref.Same(ref.M{"": r}, ref.M{"": x}) {
				return r
			}
			return append(r, x[0])
		case len(x) > 0 && chance(t, "repeat", 50):
			return append(append([]any{}, x...), x[0])
		}
		return append(append([]any{}, x...), "added")
	}
	return "other"
}

// setPlace returns the document with the value of one place replaced. The
// document is edited in place.
func setPlace(root *any, p place, v any) {
	switch x := p.parent.(type) {
	case ref.M:
		x[p.key] = v
	case []any:
		x[p.index] = v
	}
}

func TestC15Mutate(t *testing.T) {
	run(t, 1500, func(t *rapid.T) {
		typ := pick(t, "type", "root", "timestamp", "snapshot", "targets", "targets")
		signed := onlyInts(ref.CloneM(richDoc(t, typ, richOpt{extras: pick(t, "extras", 0, 20, 50)})))
		bulky(t, signed)
		keys := keySet(t, "signers", 1, 2)
		env := ref.CloneM(ref.SignEnv(signed, keys...))
		dlg := delegatorFor("r", 1, keys...)
		if d, err := parseDoc(typ, ref.Encode(env)); err != nil {
			t.Fatal(err)
		} else if err := delegatorFor("r", len(keys), keys...).VerifyDelegate("r", d.Any()); err != nil {
			t.Fatalf("the unchanged document does not verify: %v\n%s", err, ref.Encode(env))
		}
		mutant := ref.CloneM(env)
		ms := ref.Obj(mutant["signed"])
		ps := places(ms, typ, "signed")
		p := ps[intn(t, "place", 0, len(ps)-1)]
		what := pick(t, "mutation", "change", "change", "remove", "add", "null", "swap")
		isKnown := known(p.kind, p.key)
		skip := false
		switch what {
		case "change":
			v := otherValue(t, p.value)
			if isKnown && isZero(p.value) && isZero(v) {
				skip = true
			}
			setPlace(nil, p, v)
		case "null":
			if p.value == nil || isKnown && isZero(p.value) {
				skip = true
			}
			// null in a list of strings reads as the empty string
			if p.value == "" {
				skip = true
			}
			setPlace(nil, p, nil)
		case "remove":
			if isKnown && isZero(p.value) {
				skip = true
			}
			switch x := p.parent.(type) {
			case ref.M:
				delete(x, p.key)
			case []any:
				// replaced by the remaining elements through the owner of the list
				owner := ownerOf(ms, typ, x)
				if owner == nil {
					skip = true
					break
				}
				setPlace(nil, *owner, append(append([]any{}, x[:p.index]...), x[p.index+1:]...))
			}
		case "add":
			obj, ok := p.value.(ref.M)
			if !ok {
				obj = ms
			}
			name := pick(t, "name", "verif-new", "é", "x", "0", "-", "custom2")
			for {
				if _, taken := obj[name]; !taken {
					break
				}
				name += "'"
			}
			obj[name] = jsonValue(t, richOpt{}, 2)
			p.path += " + " + name
		case "swap":
			q := ps[intn(t, "with", 0, len(ps)-1)]
			if q.path == p.path || strings.HasPrefix(p.path, q.path) || strings.HasPrefix(q.path, p.path) {
				skip = true
				break
			}
			setPlace(nil, p, q.value)
			setPlace(nil, q, p.value)
			p.path += " <-> " + q.path
		}
		if skip || ref.Same(ms, env["signed"]) || sameMeaning(ms, ref.Obj(env["signed"]), typ) {
			return
		}
		b := ref.Encode(mutant)
		rec := ev.New("C15Mutate").Add(b).Class("mutation: "+what, "type "+typ)
		d, err := parseDoc(typ, b)
		rec.ClassIf(err != nil, "does not parse").ClassIf(err == nil, "parses").NonTrivial(err == nil)
		if rec.Wants() {
			rec.Sample(map[string]any{"mutation": what, "place": p.path})
		}
		rec.End()
		if err != nil {
			return
		}
		if dlg.VerifyDelegate("r", d.Any()) == nil {
			t.Fatalf("%s at %s keeps the signatures valid:\n%s\n%s", what, p.path, ref.Encode(env), b)
		}
		// and after another cycle
		d2, err := parseDoc(typ, must(d.ToBytes(true)))
		if err == nil && dlg.VerifyDelegate("r", d2.Any()) == nil {
			t.Fatalf("%s at %s verifies after a serialise and parse cycle:\n%s\n%s", what, p.path, ref.Encode(env), must(d.ToBytes(true)))
		}
	})
}

// ownerOf finds the place holding the list.
func ownerOf(v any, kind string, list []any) *place {
	for _, p := range places(v, kind, "") {
		if l, ok := p.value.([]any); ok && len(l) == len(list) && len(l) > 0 && &l[0] == &list[0] {
			return &p
		}
	}
	return nil
}

// sameMeaning drops from both documents the known fields whose value is the
// one their absence means, and compares.
func sameMeaning(a, b ref.M, typ string) bool {
	return ref.Same(dropDefaults(a, typ), dropDefaults(b, typ))
}

func dropDefaults(v any, kind string) any {
	switch x := v.(type) {
	case ref.M:
		m := ref.M{}
		for k, e := range x {
			ck := childKind(kind, k)
			if strings.HasPrefix(kind, "map:") {
				ck = kind[4:]
			}
			if known(kind, k) && isZero(e) {
				continue
			}
			m[k] = dropDefaults(e, ck)
		}
		return m
	case []any:
		ck := strings.TrimPrefix(kind, "list:")
		if ck == kind {
			ck = ""
		}
		l := []any{}
		for _, e := range x {
			l = append(l, dropDefaults(e, ck))
		}
		return l
	}
	return v
}

// What lies outside the signed part, and how the document is written, does not matter.
func TestC15Outside(t *testing.T) {
	run(t, 350, func(t *rapid.T) {
		typ := pick(t, "type", docTypes...)
		signed := onlyInts(ref.CloneM(richDoc(t, typ, richOpt{extras: pick(t, "extras", 0, 30)})))
		keys := keySet(t, "signers", 1, 3)
		env := ref.CloneM(ref.SignEnv(signed, keys...))
		dlg := delegatorFor("r", len(keys), keys...)
		o := richOpt{extras: 60, floats: true}
		sigs := ref.Arr(env["signatures"])
		what := ""
		for i, s := range sigs {
			sigs[i] = o.with(t, "signature", ref.Obj(s))
		}
		for i, n := 0, intn(t, "others", 0, 3); i < n; i++ {
			k := ref.NewEd25519(1000 + i)
			what = "other signatures"
			s := o.with(t, "signature", ref.SigObj(k.ID(), k.Sign([]byte("other content"))))
			if chance(t, "in front", 50) {
				sigs = append([]any{s}, sigs...)
			} else {
				sigs = append(sigs, s)
			}
		}
		env["signatures"] = sigs
		env = o.with(t, "envelope", env)
		b := reformat(t, ref.Clone(env))
		d, err := parseDoc(typ, b)
		if err != nil {
			t.Fatalf("%v\n%s", err, b)
		}
		for i := 0; i < 2; i++ {
			if err := dlg.VerifyDelegate("r", d.Any()); err != nil {
				t.Fatalf("a change outside the signed part invalidates the signatures: %v\n%s", err, b)
			}
			d = cycle(t, d)
		}
		ev.New("C15Outside").Add(b).Class("type "+typ).ClassIf(what != "", "other signatures").NonTrivial(len(env) > 2 || what != "").End()
	})
}

// A listed finding: the exact input.
func TestC15Findings(t *testing.T) {
	once(t, func(t *testing.T) {
		signed := ref.Timestamp(1, ref.FarFuture, ref.M{"version": 1})
		signed["x"] = json.Number("9007199254740992")
		env := ref.SignEnv(signed, ref.Ed(0))
		signed["x"] = json.Number("9007199254740993")
		d, err := parseDoc("timestamp", ref.Encode(env))
		if err != nil {
			t.Fatal(err)
		}
		if delegatorFor("r", 1, ref.Ed(0)).VerifyDelegate("r", d.Any()) == nil {
			ev.Known("[big-integers] changing an unrecognised integer from 9007199254740992 to 9007199254740993, which a float64 cannot tell apart, keeps the signatures valid")
		}
		ev.New("C15Findings").Add("findings").NonTrivial(true).End()
	})
}
