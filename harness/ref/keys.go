package ref

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	_ "embed"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"sync"
)

//go:embed rsa_keys.pem
var rsaPEM []byte

// Key is a deterministic key pair with its TUF representation.
type Key struct {
	Kind   string // ed25519, ecdsa, rsa
	Type   string
	Scheme string
	Pub    string
	Extra  M // extra fields of the key object
	Priv   crypto.Signer
	id     string
}

// Doc is the TUF key object.
func (k *Key) Doc() M {
	d := M{"keytype": k.Type, "scheme": k.Scheme, "keyval": M{"public": k.Pub}}
	for n, v := range k.Extra {
		d[n] = v
	}
	return d
}

// ID is the content-addressed key id.
func (k *Key) ID() string {
	if k.id == "" {
		k.id = KeyID(k.Doc())
	}
	return k.id
}

// Alias is the same key under an identifier of the repository's choice.
func (k *Key) Alias(id string) *Key {
	c := *k
	c.id = id
	return &c
}

// KeyID computes the id of a key object.
func KeyID(doc M) string { return Hex(SHA256(Canon(doc))) }

// Sign signs payload with the key's default scheme.
func (k *Key) Sign(payload []byte) []byte {
	switch p := k.Priv.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(p, payload)
	case *ecdsa.PrivateKey:
		h := sha256.Sum256(payload)
		s, err := p.Sign(nil, h[:], crypto.SHA256) // deterministic (RFC 6979)
		if err != nil {
			panic(err)
		}
		return s
	case *rsa.PrivateKey:
		h := sha256.Sum256(payload)
		s, err := rsa.SignPKCS1v15(nil, p, crypto.SHA256, h[:])
		if err != nil {
			panic(err)
		}
		return s
	}
	panic("unknown key")
}

// SignPSS signs with RSASSA-PSS (RSA keys only).
func (k *Key) SignPSS(payload []byte) []byte {
	h := sha256.Sum256(payload)
	s, err := rsa.SignPSS(rand.Reader, k.Priv.(*rsa.PrivateKey), crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: crypto.SHA256})
	if err != nil {
		panic(err)
	}
	return s
}

// RSADoc is the key object of any RSA public key.
func RSADoc(pub *rsa.PublicKey) M {
	return (&Key{Type: "rsa", Scheme: "rsassa-pss-sha256", Pub: pubPEM(pub)}).Doc()
}

func pubPEM(pub any) string {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
}

// NewEd25519 derives the n-th Ed25519 key.
func NewEd25519(n int) *Key {
	seed := sha256.Sum256([]byte(fmt.Sprintf("verif-ed25519-%d", n)))
	p := ed25519.NewKeyFromSeed(seed[:])
	return &Key{Kind: "ed25519", Type: "ed25519", Scheme: "ed25519", Pub: hex.EncodeToString(p.Public().(ed25519.PublicKey)), Priv: p}
}

// NewECDSA derives the n-th P-256 key.
func NewECDSA(n int) *Key { return NewECDSAOn(elliptic.P256(), n) }

// NewECDSAOn derives the n-th key on a curve.
func NewECDSAOn(c elliptic.Curve, n int) *Key {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif-ecdsa-%d", n)))
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	raw := d.FillBytes(make([]byte, (c.Params().BitSize+7)/8))
	p, err := ecdsa.ParseRawPrivateKey(c, raw)
	if err != nil {
		panic(err)
	}
	return &Key{Kind: "ecdsa", Type: "ecdsa", Scheme: "ecdsa-sha2-nistp256", Pub: pubPEM(&p.PublicKey), Priv: p}
}

var rsaKeys = sync.OnceValue(func() []*Key {
	var out []*Key
	rest := rsaPEM
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			return out
		}
		p, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		out = append(out, &Key{Kind: "rsa", Type: "rsa", Scheme: "rsassa-pss-sha256", Pub: pubPEM(&p.PublicKey), Priv: p})
	}
})

// Pool sizes.
const (
	NumEd    = 40
	NumECDSA = 12
	NumRSA   = 6
)

var edPool, ecPool []*Key
var poolOnce sync.Once

func initPools() {
	poolOnce.Do(func() {
		for i := 0; i < NumEd; i++ {
			k := NewEd25519(i)
			k.ID()
			edPool = append(edPool, k)
		}
		for i := 0; i < NumECDSA; i++ {
			k := NewECDSA(i)
			switch i { // the library takes keys on larger curves too
			case 10:
				k = NewECDSAOn(elliptic.P384(), i)
			case 11:
				k = NewECDSAOn(elliptic.P521(), i)
			}
			if i%2 == 1 && i < 10 {
				k.Type = "ecdsa-sha2-nistp256"
			}
			k.ID()
			ecPool = append(ecPool, k)
		}
		for _, k := range rsaKeys() {
			k.ID()
		}
	})
}

func Ed(i int) *Key    { initPools(); return edPool[i%NumEd] }
func ECDSA(i int) *Key { initPools(); return ecPool[i%NumECDSA] }
func RSA(i int) *Key   { initPools(); return rsaKeys()[i%NumRSA] }

// AllKeys is the whole pool, Ed25519 first.
func AllKeys() []*Key {
	initPools()
	var out []*Key
	out = append(out, edPool...)
	out = append(out, ecPool...)
	out = append(out, rsaKeys()...)
	return out
}

// VerifySig verifies a signature against a TUF key object; false for any
// malformed key.
func VerifySig(keyDoc M, payload, sig []byte) bool {
	pub := Str(Obj(keyDoc["keyval"])["public"])
	switch Str(keyDoc["keytype"]) {
	case "ed25519":
		b, err := hex.DecodeString(pub)
		if err != nil || len(b) != ed25519.PublicKeySize {
			return false
		}
		return ed25519.Verify(ed25519.PublicKey(b), payload, sig)
	case "ecdsa", "ecdsa-sha2-nistp256":
		p, ok := parsePub(pub).(*ecdsa.PublicKey)
		if !ok {
			return false
		}
		h := sha256.Sum256(payload)
		return ecdsa.VerifyASN1(p, h[:], sig)
	case "rsa":
		p, ok := parsePub(pub).(*rsa.PublicKey)
		if !ok {
			return false
		}
		h := sha256.Sum256(payload)
		return rsa.VerifyPKCS1v15(p, crypto.SHA256, h[:], sig) == nil ||
			rsa.VerifyPSS(p, crypto.SHA256, h[:], sig, &rsa.PSSOptions{Hash: crypto.SHA256}) == nil
	}
	return false
}

// UsableKey reports whether the key object is well-formed and supported.
func UsableKey(keyDoc M) bool {
	pub := Str(Obj(keyDoc["keyval"])["public"])
	switch Str(keyDoc["keytype"]) {
	case "ed25519":
		b, err := hex.DecodeString(pub)
		return err == nil && len(b) == ed25519.PublicKeySize
	case "ecdsa", "ecdsa-sha2-nistp256":
		_, ok := parsePub(pub).(*ecdsa.PublicKey)
		return ok
	case "rsa":
		_, ok := parsePub(pub).(*rsa.PublicKey)
		return ok
	}
	return false
}

func parsePub(s string) any {
	b, _ := pem.Decode([]byte(s))
	if b == nil {
		return nil
	}
	p, err := x509.ParsePKIXPublicKey(b.Bytes)
	if err != nil {
		return nil
	}
	return p
}

// PublicIdentity identifies the public key itself, whatever its encoding or id.
func PublicIdentity(keyDoc M) string {
	pub := Str(Obj(keyDoc["keyval"])["public"])
	if Str(keyDoc["keytype"]) == "ed25519" {
		b, _ := hex.DecodeString(pub)
		return "ed25519:" + string(b)
	}
	der, _ := x509.MarshalPKIXPublicKey(parsePub(pub))
	return "pkix:" + string(der)
}
