package props

import (
	"bytes"
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

var hexID = regexp.MustCompile(`^[0-9a-f]{64}$`)

func samePublic(a, b crypto.PublicKey) bool {
	e, ok := a.(interface{ Equal(crypto.PublicKey) bool })
	return ok && e.Equal(b)
}

// freshPublic draws a public key and its reference document.
func freshPublic(t *rapid.T) (crypto.PublicKey, ref.M) {
	n := intn(t, "seed", 0, 1<<30)
	switch intn(t, "kind", 0, 7) {
	case 7:
		// a key with another modulus size or public exponent; nobody needs to
		// sign with it
		bits := pick(t, "modulus", 512, 1024, 2047, 2048, 3072, 4096)
		b := rapid.SliceOfN(rapid.Byte(), bits/8+1, bits/8+1).Draw(t, "N")
		N := new(big.Int).SetBytes(b)
		for N.BitLen() > bits {
			N.Rsh(N, 1)
		}
		N.SetBit(N, bits-1, 1)
		N.SetBit(N, 0, 1)
		pub := &rsa.PublicKey{N: N, E: pick(t, "E", 65537, 3, 5, 17, 257, 65539, 1<<31-1)}
		return pub, ref.RSADoc(pub)
	case 0:
		k := ref.RSA(n)
		d := k.Doc()
		return k.Priv.Public(), d
	case 1, 2, 3:
		k := ref.NewECDSA(n)
		return k.Priv.Public(), k.Doc()
	}
	k := ref.NewEd25519(n)
	return k.Priv.Public(), k.Doc()
}

func TestC14Convert(t *testing.T) {
	run(t, 5000, func(t *rapid.T) {
		pub, want := freshPublic(t)
		k, err := metadata.KeyFromPublicKey(pub)
		if err != nil {
			t.Fatalf("a supported key is refused: %v", err)
		}
		if k.Type != want["keytype"] || k.Scheme != want["scheme"] || k.Value.PublicKey != ref.Obj(want["keyval"])["public"] {
			t.Fatalf("converted to %+v, want %v", k, want)
		}
		askFirst := chance(t, "ask for the id first", 50)
		id := ref.KeyID(want)
		if askFirst && k.ID() != id {
			t.Fatalf("id %s, want %s", k.ID(), id)
		}
		b := must(json.Marshal(k))
		v, _ := ref.Decode(b)
		if diff := sameJSON(want, v); diff != "" {
			t.Fatalf("serialised as %s: %s", b, diff)
		}
		k2 := &metadata.Key{}
		if err := json.Unmarshal(reformat(t, v), k2); err != nil {
			t.Fatal(err)
		}
		for i, x := range []*metadata.Key{k, k2, k} {
			p, err := x.ToPublicKey()
			if err != nil {
				t.Fatalf("conversion back failed: %v", err)
			}
			if !samePublic(pub, p) {
				t.Fatalf("conversion %d gives %v instead of %v", i, p, pub)
			}
			if x.ID() != id {
				t.Fatalf("conversion %d has id %s, want %s", i, x.ID(), id)
			}
			again := must(metadata.KeyFromPublicKey(p))
			if again.ID() != id {
				t.Fatalf("converting twice gives id %s, want %s", again.ID(), id)
			}
		}
		if !hexID.MatchString(k.ID()) {
			t.Fatalf("id %q", k.ID())
		}
		ev.New("C14Convert").Add(id, askFirst).Class("type " + k.Type).NonTrivial(true).Sample(string(b)).End()
	})
}

// TestC14Held: the results of several conversions are held together; none
// changes with another, nor with what the caller does to it.
func TestC14Held(t *testing.T) {
	run(t, 600, func(t *rapid.T) {
		var pubs, got []crypto.PublicKey
		var keys []*metadata.Key
		var ids []string
		n := intn(t, "keys", 2, 5)
		for i := 0; i < n; i++ {
			pub, want := freshPublic(t)
			pubs = append(pubs, pub)
			keys = append(keys, must(metadata.KeyFromPublicKey(pub)))
			ids = append(ids, ref.KeyID(want))
		}
		for _, k := range keys {
			got = append(got, must(k.ToPublicKey()))
		}
		for i := range keys {
			if !samePublic(pubs[i], got[i]) || keys[i].ID() != ids[i] {
				t.Fatalf("key %d of %d: converted to %v (id %s), want %v (id %s)", i, n, got[i], keys[i].ID(), pubs[i], ids[i])
			}
		}
		spoiled := 0
		for i := range got {
			if p, ok := got[i].(ed25519.PublicKey); ok {
				p[intn(t, "byte", 0, len(p)-1)] ^= 1
				spoiled++
				continue
			}
		}
		for i := range keys {
			if p, err := keys[i].ToPublicKey(); err != nil || !samePublic(pubs[i], p) {
				t.Fatalf("key %d of %d converts to %v (%v) after results were overwritten, want %v", i, n, p, err, pubs[i])
			}
		}
		ev.New("C14Held").Add(ids).ClassIf(spoiled > 0, "results overwritten").NonTrivial(true).Sample(ids).End()
	})
}

// Other curves: whatever is converted converts back.
func TestC14Curves(t *testing.T) {
	run(t, 400, func(t *rapid.T) {
		c := pick(t, "curve", elliptic.P256(), elliptic.P384(), elliptic.P521(), elliptic.P224())
		n := (c.Params().BitSize + 7) / 8
		raw := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "private")
		raw[0] &= 0 // below the order of every curve
		raw[n-1] |= 1
		priv, err := ecdsa.ParseRawPrivateKey(c, raw)
		if err != nil {
			t.Fatal(err)
		}
		pub := &priv.PublicKey
		var k *metadata.Key
		if p := guard(func() { k, err = metadata.KeyFromPublicKey(pub) }); p != "" {
			t.Fatalf("%s: %s", c.Params().Name, p)
		}
		rec := ev.New("C14Curves").Add(raw, c.Params().Name).Class(c.Params().Name).ClassIf(err == nil, "converted").NonTrivial(err == nil)
		if err == nil {
			p, err := k.ToPublicKey()
			if err != nil || !samePublic(pub, p) {
				t.Fatalf("a %s key is converted to %+v, which converts back to %v (%v)", c.Params().Name, k, p, err)
			}
			k2 := &metadata.Key{}
			if err := json.Unmarshal(must(json.Marshal(k)), k2); err != nil {
				t.Fatal(err)
			}
			if p, err := k2.ToPublicKey(); err != nil || !samePublic(pub, p) {
				t.Fatalf("after serialisation a %s key converts back to %v (%v)", c.Params().Name, p, err)
			}
			if k2.ID() != k.ID() || must(metadata.KeyFromPublicKey(p)).ID() != k.ID() {
				t.Fatalf("identifiers of one %s key differ", c.Params().Name)
			}
		} else if c == elliptic.P256() {
			t.Fatalf("a supported key is refused: %v", err)
		}
		rec.Sample(c.Params().Name).End()
	})
}

// Identifiers of key objects with arbitrary fields.
func TestC14Identifier(t *testing.T) {
	run(t, 2000, func(t *rapid.T) {
		o := richOpt{extras: 50}
		base := pick(t, "base", ref.Ed(intn(t, "ed", 0, 9)), ref.ECDSA(intn(t, "ec", 0, 5)), ref.RSA(0))
		d := ref.CloneM(o.key(t, base))
		if chance(t, "odd fields", 30) {
			d["keytype"] = pick(t, "keytype", someStrings...)
			d["scheme"] = pick(t, "scheme", someStrings...)
			d["keyval"].(ref.M)["public"] = pick(t, "public", someStrings...)
		}
		parse := func(v any) *metadata.Key {
			k := &metadata.Key{}
			in := reformat(t, v)
			if err := json.Unmarshal(in, k); err != nil {
				t.Fatalf("%v: %s", err, in)
			}
			return k
		}
		want := ref.KeyID(d)
		k := parse(d)
		if k.ID() != want {
			t.Fatalf("id %s, want %s of %s", k.ID(), want, ref.Canon(d))
		}
		if parse(d).ID() != want {
			t.Fatalf("the id depends on the formatting")
		}
		k2 := &metadata.Key{}
		if err := json.Unmarshal(must(json.Marshal(parse(d))), k2); err != nil || k2.ID() != want {
			t.Fatalf("after serialisation: %v, id %s, want %s", err, k2.ID(), want)
		}
		// inside metadata, under whatever identifier
		label := pick(t, "label", want, "other", "")
		root := ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{})
		root["keys"] = ref.M{label: d}
		m := must(parseDoc("root", reformat(t, ref.Clone(ref.Envelope(root)))))
		for i := 0; i < 2; i++ {
			if got := m.Any().(*metadata.Metadata[metadata.RootType]).Signed.Keys[label]; got == nil || got.ID() != want {
				t.Fatalf("in metadata: %v, want id %s", got, want)
			}
			m = must(parseDoc("root", must(m.ToBytes(true))))
		}
		// reusing the object for another key
		other := ref.Ed(20 + intn(t, "other", 0, 9))
		reused := parse(d)
		reused.ID()
		if err := json.Unmarshal(ref.Encode(other.Doc()), reused); err != nil || reused.ID() != other.ID() {
			t.Fatalf("an object parsed again keeps id %s (%v)", reused.ID(), err)
		}
		// any change changes the id
		ch, what := ref.CloneM(d), ""
		kv := ch["keyval"].(ref.M)
		switch intn(t, "change", 0, 5) {
		case 0:
			what = "type"
			ch["keytype"] = ref.Str(ch["keytype"]) + pick(t, "suffix", "x", " ", "é")
		case 1:
			what = "scheme"
			ch["scheme"] = ref.Str(ch["scheme"]) + "x"
		case 2:
			what = "public"
			p := ref.Str(kv["public"])
			if i := intn(t, "at", 0, 200); i < len(p) && p[i] < 0x7f && p[i] > ' ' {
				kv["public"] = p[:i] + string(rune(p[i]^1)) + p[i+1:]
			} else {
				kv["public"] = p + "\n"
			}
		case 3:
			what = "new field"
			n := pick(t, "name", append([]string{"verif-extra"}, extraNames...)...)
			v := jsonValue(t, o, 1)
			for ch[n] != nil {
				n += "+"
			}
			if _, there := ch[n]; there && v == nil {
				v = "new"
			}
			ch[n] = v
		case 4:
			what = "new field in keyval"
			n := pick(t, "name", extraNames...)
			for kv[n] != nil || strings.EqualFold(n, "public") {
				n += "+"
			}
			v := jsonValue(t, o, 1)
			if _, there := kv[n]; there && v == nil {
				v = "new"
			}
			kv[n] = v
		case 5:
			for _, n := range sortedKeys(ch) {
				if n != "keytype" && n != "scheme" && n != "keyval" {
					what = "field removed"
					delete(ch, n)
					break
				}
			}
		}
		if what != "" {
			w := ref.KeyID(ch)
			if got := parse(ch).ID(); got != w || got == want {
				t.Fatalf("after a change of %s: id %s, want %s; before it was %s", what, got, w, want)
			}
		}
		ev.New("C14Identifier").Add(want, what).Class("change: "+what).ClassIf(len(d) > 3, "extra fields").NonTrivial(what != "").
			Sample(map[string]any{"key": d, "change": what}).End()
	})
}

func pemOf(kind string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}))
}

func TestC14Refuse(t *testing.T) {
	run(t, 15000, func(t *rapid.T) {
		typ := pick(t, "type", "ed25519", "ecdsa", "ecdsa-sha2-nistp256", "rsa", "", "ED25519", "ed448", "rsa ", "RSA", "sphincs")
		ed, ec, rs := ref.Ed(intn(t, "ed", 0, 9)), ref.ECDSA(intn(t, "ec", 0, 9)), ref.RSA(intn(t, "rsa", 0, ref.NumRSA-1))
		var public, what string
		switch what = pick(t, "material", "good ed25519", "good ecdsa", "good rsa", "hex length", "not hex", "private", "certificate", "garbage pem", "truncated", "mutated", "ed25519 pem", "text", "other pem type"); what {
		case "good ed25519":
			public = ed.Pub
		case "good ecdsa":
			public = ec.Pub
		case "good rsa":
			public = rs.Pub
		case "hex length":
			n := intn(t, "bytes", 0, 70)
			public = hex.EncodeToString(bytes.Repeat([]byte{7}, n))
			if chance(t, "odd", 20) {
				public += "0"
			}
		case "not hex":
			i := intn(t, "at", 0, 63)
			public = ed.Pub[:i] + pick(t, "char", "g", "é", " ", "\x00", "-") + ed.Pub[i+1:]
		case "private":
			if chance(t, "ec", 50) {
				public = pemOf(pick(t, "pem", "PRIVATE KEY", "PUBLIC KEY"), must(x509.MarshalPKCS8PrivateKey(ec.Priv)))
			} else {
				public = pemOf(pick(t, "pem", "RSA PRIVATE KEY", "PUBLIC KEY"), x509.MarshalPKCS1PrivateKey(rs.Priv.(*rsa.PrivateKey)))
			}
		case "certificate":
			public = pemOf("CERTIFICATE", must(x509.MarshalPKIXPublicKey(ec.Priv.Public())))
		case "garbage pem":
			public = pemOf("PUBLIC KEY", rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "der"))
		case "truncated":
			p := pick(t, "of", ed, ec, rs).Pub
			public = p[:intn(t, "to", 0, len(p)-1)]
		case "mutated":
			p := []byte(pick(t, "of", ec, rs).Pub)
			i := intn(t, "at", 0, len(p)-1)
			p[i] = "ABCz09+/=-\n "[intn(t, "to", 0, 11)]
			public = string(p)
		case "ed25519 pem":
			public = pemOf("PUBLIC KEY", must(x509.MarshalPKIXPublicKey(ed.Priv.Public())))
		case "text":
			public = pick(t, "text", someStrings...)
		case "other pem type":
			public = strings.ReplaceAll(pick(t, "of", ec, rs).Pub, "PUBLIC KEY", pick(t, "pem", "EC PUBLIC KEY", "PRIVATE KEY", "PUBLIC", "public key"))
		}
		d := ref.M{"keytype": typ, "scheme": "s", "keyval": ref.M{"public": public}}
		k := &metadata.Key{}
		if err := json.Unmarshal(ref.Encode(d), k); err != nil {
			t.Fatalf("the key object itself does not parse: %v", err)
		}
		var pub crypto.PublicKey
		var err error
		if p := guard(func() { pub, err = k.ToPublicKey() }); p != "" {
			t.Fatalf("%s key from %s: %s", typ, what, p)
		}
		// what went through JSON is what counts (invalid UTF-8 is replaced)
		d["keyval"].(ref.M)["public"] = k.Value.PublicKey
		usable := ref.UsableKey(d)
		if what == "other pem type" && usable {
			usable = false // the reference parser ignores the label
		}
		if what == "private" || what == "certificate" || what == "mutated" {
			// the label may be damaged; only acceptance of unusable material counts
			if err == nil && !ref.UsableKey(d) {
				t.Fatalf("%s material accepted as %s key: %q", what, typ, public)
			}
		} else if usable != (err == nil) {
			t.Fatalf("%s material as %s key: error %v, usable %v: %q", what, typ, err, usable, public)
		}
		if err != nil && pub != nil {
			t.Fatalf("an error together with a key: %v %v", pub, err)
		}
		if err == nil {
			der := must(x509.MarshalPKIXPublicKey(pub))
			if id := ref.PublicIdentity(d); id != "pkix:"+string(der) {
				if e, ok := pub.(ed25519.PublicKey); !ok || id != "ed25519:"+string(e) {
					t.Fatalf("%s key from %s gives another key", typ, what)
				}
			}
		}
		// the same for metadata using such a key: an error, or an unverified signature, never a crash
		ev.New("C14Refuse").Add(typ, public).Class("material: "+what).ClassIf(err == nil, "accepted").ClassIf(err != nil, "refused").
			NonTrivial(err != nil).Sample(map[string]any{"type": typ, "public": public, "result": errStr(err)}).End()
	})
}

// Go values that are no supported public key.
func TestC14Unsupported(t *testing.T) {
	run(t, 1000, func(t *rapid.T) {
		ed := ref.Ed(intn(t, "ed", 0, 9))
		ec := ref.ECDSA(0).Priv.Public().(*ecdsa.PublicKey)
		rs := ref.RSA(0).Priv.Public().(*rsa.PublicKey)
		h := sha256.Sum256([]byte("x"))
		short := make(ed25519.PublicKey, pick(t, "length", 0, 1, 31, 33, 64))
		xs := []any{nil, ed.Priv, []byte(ed.Priv.Public().(ed25519.PublicKey)), *rs, *ec, ref.ECDSA(1).Priv, ref.RSA(0).Priv,
			must(ecdh.X25519().NewPrivateKey(h[:])).PublicKey(), ed.Pub, ec.X, elliptic.P256(), short, &short}
		i := intn(t, "value", 0, len(xs)-1)
		var k *metadata.Key
		var err error
		if p := guard(func() { k, err = metadata.KeyFromPublicKey(xs[i]) }); p != "" {
			t.Fatalf("%T: %s", xs[i], p)
		}
		if err == nil || k != nil {
			t.Fatalf("%T of %d bytes is converted to a key: %+v", xs[i], len(short), k)
		}
		ev.New("C14Unsupported").Add(i, len(short)).Class(fmt.Sprintf("%T", xs[i])).NonTrivial(true).End()
	})
}

// A listed finding: the exact input.
func TestC14Findings(t *testing.T) {
	once(t, func(t *testing.T) {
		d := ref.Ed(0).Doc()
		d["x"] = json.Number("9007199254740993")
		k := &metadata.Key{}
		if err := json.Unmarshal(ref.Encode(d), k); err != nil {
			t.Fatal(err)
		}
		want := ref.KeyID(d)
		d["x"] = json.Number("9007199254740992")
		if got := k.ID(); got == ref.KeyID(d) {
			ev.Known("[big-integers] the identifier of a key whose unrecognised field holds 9007199254740993 is that of the key with 9007199254740992")
		} else if got != want {
			t.Fatalf("id %s, want %s", got, want)
		}
		ev.New("C14Findings").Add("findings").NonTrivial(true).End()
	})
}
