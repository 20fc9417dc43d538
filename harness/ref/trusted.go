package ref

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Doc is a parsed metadata document.
type Doc struct {
	Raw    []byte
	Signed M
	Sigs   []Sig
}

// Sig is one signature entry.
type Sig struct {
	KeyID string
	Sig   []byte
}

func (d *Doc) Type() string   { return Str(d.Signed["_type"]) }
func (d *Doc) Version() int64 { return Int(d.Signed["version"]) }
func (d *Doc) Expires() time.Time {
	t, _ := time.Parse(time.RFC3339, Str(d.Signed["expires"]))
	return t
}

// Meta is the entry of a meta object (nil if absent).
func (d *Doc) Meta(name string) M { return Obj(Obj(d.Signed["meta"])[name]) }

// ParseDoc parses a document of the wanted type. It is only exact for the
// documents the generators build: structurally sound ones, plain garbage, and
// documents of another type.
func ParseDoc(raw []byte, want string) (*Doc, error) {
	key := want + "\x00" + string(raw)
	memo.Lock()
	p, ok := memo.docs[key]
	memo.Unlock()
	if ok {
		return p.d, p.err
	}
	d, err := parseDoc(raw, want)
	memo.Lock()
	if len(memo.docs) > 3000 {
		memo.docs = map[string]parsed{}
	}
	memo.docs[key] = parsed{d, err}
	memo.Unlock()
	return d, err
}

type parsed struct {
	d   *Doc
	err error
}

// memo only saves time: parsing and signature verification are pure.
var memo = struct {
	sync.Mutex
	docs map[string]parsed
	sigs map[[32]byte]bool
}{docs: map[string]parsed{}, sigs: map[[32]byte]bool{}}

func verifyMemo(key M, payload, sig []byte) bool {
	h := sha256.New()
	for _, b := range [][]byte{Canon(key), payload, sig} {
		s := sha256.Sum256(b)
		h.Write(s[:])
	}
	var id [32]byte
	h.Sum(id[:0])
	memo.Lock()
	v, ok := memo.sigs[id]
	memo.Unlock()
	if ok {
		return v
	}
	v = VerifySig(key, payload, sig)
	memo.Lock()
	if len(memo.sigs) > 50000 {
		memo.sigs = map[[32]byte]bool{}
	}
	memo.sigs[id] = v
	memo.Unlock()
	return v
}

func parseDoc(raw []byte, want string) (*Doc, error) {
	v, err := Decode(raw)
	if err != nil {
		return nil, err
	}
	env := Obj(v)
	if env == nil {
		return nil, fmt.Errorf("not an object")
	}
	signed := Obj(env["signed"])
	if signed == nil {
		return nil, fmt.Errorf("no signed part")
	}
	if t := Str(signed["_type"]); t != want {
		return nil, fmt.Errorf("type %q, want %q", t, want)
	}
	d := &Doc{Raw: append([]byte(nil), raw...), Signed: signed}
	seen := map[string]bool{}
	for _, s := range Arr(env["signatures"]) {
		o := Obj(s)
		id := Str(o["keyid"])
		if seen[id] {
			return nil, fmt.Errorf("duplicate signature for %s", id)
		}
		seen[id] = true
		b, err := hex.DecodeString(Str(o["sig"]))
		if err != nil {
			return nil, err
		}
		d.Sigs = append(d.Sigs, Sig{id, b})
	}
	return d, nil
}

// Delegation describes what a delegator says about a role.
type Delegation struct {
	Named      bool
	MissingKey bool // a listed key id has no key object, or an unusable one
	Threshold  int64
	KeyIDs     []string
	Keys       M
}

// FindDelegation looks up role in the signed part of a delegator.
func FindDelegation(delegator M, role string) Delegation {
	var d Delegation
	var r M
	switch Str(delegator["_type"]) {
	case "root":
		d.Keys = Obj(delegator["keys"])
		r = Obj(Obj(delegator["roles"])[role])
	case "targets":
		del := Obj(delegator["delegations"])
		if del == nil {
			return d
		}
		d.Keys = Obj(del["keys"])
		if roles := Arr(del["roles"]); roles != nil {
			for _, e := range roles {
				if Str(Obj(e)["name"]) == role {
					r = Obj(e)
					break
				}
			}
		} else if s := Obj(del["succinct_roles"]); s != nil {
			if IsBinName(s, role) {
				r = s
			}
		}
	}
	if r == nil {
		return d
	}
	d.KeyIDs = Strs(r["keyids"])
	d.Threshold = Int(r["threshold"])
	d.Named = len(d.KeyIDs) > 0
	for _, id := range d.KeyIDs {
		k := Obj(d.Keys[id])
		if k == nil || !UsableKey(k) {
			d.MissingKey = true
		}
	}
	return d
}

// ValidSigners counts the distinct keys listed for the role with a valid
// signature over signed.
func (d Delegation) ValidSigners(signed M, sigs []Sig) int {
	payload := Canon(signed)
	ok := map[string]bool{} // by public key, so that aliases count once
	for _, id := range d.KeyIDs {
		k := Obj(d.Keys[id])
		if k == nil {
			continue
		}
		for _, s := range sigs {
			if s.KeyID == id && verifyMemo(k, payload, s.Sig) {
				ok[PublicIdentity(k)] = true
			}
		}
	}
	return len(ok)
}

// Verified reports whether doc carries a threshold of signatures for role.
func Verified(delegator M, role string, doc *Doc) bool {
	d := FindDelegation(delegator, role)
	return d.Named && d.Threshold >= 1 && int64(d.ValidSigners(doc.Signed, doc.Sigs)) >= d.Threshold
}

// Cause names one reason for refusing metadata.
type Cause string

const (
	Unsigned     Cause = "unsigned"
	BadVersion   Cause = "bad-version"
	EqualVersion Cause = "equal-version"
	Expired      Cause = "expired"
	Mismatch     Cause = "length-or-hash"
	MissingInfo  Cause = "missing-info"
	Order        Cause = "order"
	NoDelegation Cause = "no-delegation"
	Malformed    Cause = "malformed"
)

// Causes is the set of reasons that apply; empty means accepted.
type Causes map[Cause]bool

func (c Causes) String() string {
	var s []string
	for k := range c {
		s = append(s, string(k))
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

// Trusted is the reference trusted metadata set. Docs are compared by raw
// bytes.
type Trusted struct {
	Root, TS, SN *Doc
	Targets      map[string]*Doc
	Now          time.Time
}

func delegCauses(c Causes, delegator M, role string, doc *Doc) {
	d := FindDelegation(delegator, role)
	if !d.Named {
		c[NoDelegation] = true
		return
	}
	if d.MissingKey {
		c[NoDelegation] = true
	}
	if int64(d.ValidSigners(doc.Signed, doc.Sigs)) < d.Threshold || d.Threshold < 1 {
		c[Unsigned] = true
	}
}

// NewTrusted loads the initial root.
func NewTrusted(raw []byte, now time.Time) (*Trusted, Causes) {
	c := Causes{}
	d, err := ParseDoc(raw, "root")
	if err != nil {
		c[Malformed] = true
		return nil, c
	}
	delegCauses(c, d.Signed, "root", d)
	if len(c) > 0 {
		return nil, c
	}
	return &Trusted{Root: d, Targets: map[string]*Doc{}, Now: now}, c
}

// Clone copies the set (documents are shared, they are immutable).
func (t *Trusted) Clone() *Trusted {
	c := *t
	c.Targets = map[string]*Doc{}
	for k, v := range t.Targets {
		c.Targets[k] = v
	}
	return &c
}

func (t *Trusted) expired(d *Doc) bool { return t.Now.After(d.Expires()) }

// UpdateRoot applies the root rules.
func (t *Trusted) UpdateRoot(raw []byte) Causes {
	c := Causes{}
	if t.TS != nil {
		c[Order] = true
	}
	d, err := ParseDoc(raw, "root")
	if err != nil {
		c[Malformed] = true
		return c
	}
	delegCauses(c, t.Root.Signed, "root", d)
	delegCauses(c, d.Signed, "root", d)
	if d.Version() != t.Root.Version()+1 {
		c[BadVersion] = true
	}
	if len(c) == 0 {
		t.Root = d
	}
	return c
}

func matches(meta M, data []byte) bool {
	if l := Int(meta["length"]); l != 0 && l != int64(len(data)) {
		return false
	}
	for alg, h := range Obj(meta["hashes"]) {
		switch alg {
		case "sha256", "sha512":
			if HashOf(alg, data) != strings.ToLower(Str(h)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// Matches checks data against a length/hashes object.
func Matches(meta M, data []byte) bool { return matches(meta, data) }

// UpdateTimestamp applies the timestamp rules.
func (t *Trusted) UpdateTimestamp(raw []byte) Causes {
	c := Causes{}
	if t.SN != nil {
		c[Order] = true
	}
	if t.expired(t.Root) {
		c[Expired] = true
	}
	d, err := ParseDoc(raw, "timestamp")
	if err != nil || d.Meta("snapshot.json") == nil {
		c[Malformed] = true
		return c
	}
	delegCauses(c, t.Root.Signed, "timestamp", d)
	if t.TS != nil {
		switch {
		case d.Version() < t.TS.Version():
			c[BadVersion] = true
		case d.Version() == t.TS.Version():
			c[EqualVersion] = true
		}
		if Int(d.Meta("snapshot.json")["version"]) < Int(t.TS.Meta("snapshot.json")["version"]) {
			c[BadVersion] = true
		}
	}
	if len(c) == 0 {
		t.TS = d
		if t.expired(d) {
			c[Expired] = true // retained nevertheless
		}
	}
	return c
}

// UpdateSnapshot applies the snapshot rules.
func (t *Trusted) UpdateSnapshot(raw []byte, isTrusted bool) Causes {
	c := Causes{}
	if t.TS == nil || t.Targets["targets"] != nil {
		c[Order] = true
		if t.TS == nil {
			return c
		}
	}
	if t.expired(t.TS) {
		c[Expired] = true
	}
	rec := t.TS.Meta("snapshot.json")
	if !isTrusted && !matches(rec, raw) {
		c[Mismatch] = true
	}
	d, err := ParseDoc(raw, "snapshot")
	if err != nil {
		c[Malformed] = true
		return c
	}
	delegCauses(c, t.Root.Signed, "snapshot", d)
	if t.SN != nil {
		for name, e := range Obj(t.SN.Signed["meta"]) {
			n := d.Meta(name)
			if n == nil {
				c[MissingInfo] = true
			} else if Int(n["version"]) < Int(Obj(e)["version"]) {
				c[BadVersion] = true
			}
		}
	}
	if len(c) == 0 {
		t.SN = d
		t.finalSnapshot(c)
	}
	return c
}

func (t *Trusted) finalSnapshot(c Causes) {
	if t.expired(t.SN) {
		c[Expired] = true
	}
	if t.SN.Version() != Int(t.TS.Meta("snapshot.json")["version"]) {
		c[BadVersion] = true
	}
}

// UpdateTargets applies the targets rules.
func (t *Trusted) UpdateTargets(raw []byte, role, delegator string) Causes {
	c := Causes{}
	if t.SN == nil {
		c[Order] = true
		return c
	}
	t.finalSnapshot(c)
	var del M
	if delegator == "root" {
		del = t.Root.Signed
	} else if p := t.Targets[delegator]; p != nil {
		del = p.Signed
	} else {
		c[Order] = true
		return c
	}
	rec := t.SN.Meta(role + ".json")
	if rec == nil {
		c[MissingInfo] = true
	} else if !matches(rec, raw) {
		c[Mismatch] = true
	}
	d, err := ParseDoc(raw, "targets")
	if err != nil {
		c[Malformed] = true
		return c
	}
	delegCauses(c, del, role, d)
	if rec != nil && d.Version() != Int(rec["version"]) {
		c[BadVersion] = true
	}
	if t.expired(d) {
		c[Expired] = true
	}
	if len(c) == 0 {
		t.Targets[role] = d
	}
	return c
}

// ---- succinct bins ----

// BinSuffixLen is the number of hex digits of a bin name.
func BinSuffixLen(bits int64) int { return int((bits + 3) / 4) }

// BinName names bin n.
func BinName(prefix string, bits int64, n uint64) string {
	s := strconv.FormatUint(n, 16)
	return prefix + "-" + strings.Repeat("0", BinSuffixLen(bits)-len(s)) + s
}

// BinIndex is the bin of a path: the leading bits of its SHA-256.
func BinIndex(bits int64, path string) uint64 {
	h := SHA256([]byte(path))
	var n uint64
	for i := int64(0); i < bits; i++ {
		n = n<<1 | uint64(h[i/8]>>(7-i%8)&1)
	}
	return n
}

// IsBinName reports whether name is one of the bins.
func IsBinName(s M, name string) bool {
	bits := Int(s["bit_length"])
	rest, ok := strings.CutPrefix(name, Str(s["name_prefix"])+"-")
	if !ok || len(rest) != BinSuffixLen(bits) {
		return false
	}
	var n uint64
	for _, ch := range []byte(rest) {
		switch {
		case '0' <= ch && ch <= '9':
			n = n<<4 | uint64(ch-'0')
		case 'a' <= ch && ch <= 'f':
			n = n<<4 | uint64(ch-'a'+10)
		default:
			return false
		}
	}
	return n < 1<<uint(bits)
}
