package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// The bundle engine drives a TrustedMetadata set and the reference set in
// lockstep over sequences of update calls. Documents come from a generated
// pool, so that histories mix new, repeated, stale and mismatching documents.

// profile says how often (in percent) each kind of variation is generated.
type profile struct {
	name    string
	roots   int // longest root chain
	sig     int // bad or insufficient signatures
	exp     int // expiry near the reference time
	ver     int // versions other than the next ones
	rec     int // recorded length/hash/version that do not fit
	record  int // any recorded lengths or hashes at all
	entries int // snapshots that drop or lower entries
	guided  int // steps that pick a document the reference accepts
	steps   int // longest sequence
	restart int // start over from a trusted root
	rotate  int // key rotation between eras
	clock   int // the reference time moves between calls
	near    int // steps that pick a document refused for one reason only
}

type poolDoc struct {
	raw  []byte
	role string // targets role
	how  string
}

type pool struct {
	now   time.Time
	init  poolDoc
	roots []poolDoc
	ts    []poolDoc
	sn    []poolDoc
	tg    []poolDoc
	junk  []poolDoc
}

type era map[string]ref.RoleSpec

func (p profile) era(t *rapid.T, prev era) era {
	e := era{}
	for _, r := range []string{"root", "timestamp", "snapshot", "targets", "a", "b", "c"} {
		if prev != nil && !chance(t, "rot-"+r, p.rotate) {
			e[r] = prev[r]
			continue
		}
		e[r] = nextSpec(t, "k-"+r, prev[r])
	}
	return e
}

// nextSpec draws the keys that follow prev (if any): other keys, or the same
// ones with another threshold, fewer or more of them, in another order.
func nextSpec(t *rapid.T, label string, prev ref.RoleSpec) ref.RoleSpec {
	s := roleSpec(t, label, 3)
	if len(prev.Keys) == 0 || !chance(t, label+" derived", 45) {
		return s
	}
	keys := append([]*ref.Key{}, prev.Keys...)
	switch intn(t, label+" how", 0, 6) {
	case 5, 6: // one key gives way to another, all else stays
		if i := intn(t, label+" replaced", 0, len(keys)-1); !hasKey(keys, s.Keys[0]) {
			keys[i] = s.Keys[0]
			return ref.RoleSpec{Keys: keys, Threshold: prev.Threshold}
		}
	case 0: // more keys
		for _, k := range s.Keys {
			if !hasKey(keys, k) {
				keys = append(keys, k)
			}
		}
	case 1: // fewer keys
		keys = keys[:intn(t, label+" left", 1, len(keys))]
	case 2: // another order
		keys = rapid.Permutation(keys).Draw(t, label+" order")
	}
	return ref.RoleSpec{Keys: keys, Threshold: intn(t, label+" threshold", 1, len(keys))}
}

func hasKey(keys []*ref.Key, k *ref.Key) bool {
	for _, o := range keys {
		if o.ID() == k.ID() {
			return true
		}
	}
	return false
}

// some draws a part of the keys, each once.
func some(t *rapid.T, label string, keys []*ref.Key) []*ref.Key {
	var out []*ref.Key
	for _, k := range keys {
		if !hasKey(out, k) && chance(t, label, 60) {
			out = append(out, k)
		}
	}
	return out
}

// instants around the reference time (the reference time itself may carry
// nanoseconds, expiries are whole seconds as the specification wants).
func (p profile) expires(t *rapid.T, now time.Time) (string, string) {
	if !chance(t, "exp?", p.exp) {
		return ref.FarFuture, ""
	}
	base := now.Truncate(time.Second)
	d := pick(t, "exp", time.Duration(0), 0, 0, time.Second, -time.Second, 2*time.Second, time.Hour, -time.Hour, -24*365*time.Hour, 24*365*time.Hour)
	e := base.Add(d)
	c := "expires later"
	if now.After(e) {
		c = "expired"
	} else if now.Equal(e) {
		c = "expires at this very instant"
	}
	return e.UTC().Format("2006-01-02T15:04:05Z"), c
}

// version near the running number, sometimes far away.
func (p profile) version(t *rapid.T, label string, near int64) int64 {
	if !chance(t, label+"?", p.ver) {
		return near
	}
	v := pick(t, label, near, near+1, near-1, near+2, near+3, near+9, near+10, near+100, near+1<<8, near+1<<16, near+1<<32, near+1<<32-1, int64(1), int64(1)<<31, int64(1)<<32+1, int64(1)<<53+1, int64(1)<<62, 9, 10, 99, 100)
	if v < 1 {
		v = 1
	}
	return v
}

// signers chooses who signs: usually everyone of the role.
func (p profile) signers(t *rapid.T, e era, role string) ([]*ref.Key, string) {
	spec := e[role]
	if !chance(t, "sig?", p.sig) {
		return spec.Keys, ""
	}
	return p.underSigned(t, e, role)
}

// underSigned draws signers that mostly do not suffice.
func (p profile) underSigned(t *rapid.T, e era, role string) ([]*ref.Key, string) {
	spec := e[role]
	switch intn(t, "sig", 0, 4) {
	case 0:
		return spec.Keys[:spec.Threshold], "threshold just met"
	case 1:
		return spec.Keys[:spec.Threshold-1], "one signature short"
	case 2:
		other := pick(t, "sigrole", "root", "timestamp", "snapshot", "targets", "a", "b", "c")
		return e[other].Keys, "signed by " + other + " keys"
	case 3:
		return nil, "unsigned"
	}
	return append([]*ref.Key{ref.NewEd25519(500)}, spec.Keys[:spec.Threshold-1]...), "stranger instead of last signer"
}

// sign signs and occasionally corrupts.
func (p profile) sign(t *rapid.T, signed ref.M, keys []*ref.Key) ([]byte, string) {
	if chance(t, "other spec version", 15) {
		// versions of the specification this library implements as well
		signed["spec_version"] = pick(t, "spec version", "1.0.0", "1.0.9", "1.0.30", "1.0.32", "1.0.100")
	}
	env := ref.SignEnv(signed, keys...)
	how := ""
	if sigs := env["signatures"].([]any); len(sigs) > 0 && chance(t, "corrupt?", p.sig/3) {
		o := sigs[intn(t, "corrupt", 0, len(sigs)-1)].(ref.M)
		s := []byte(ref.Str(o["sig"]))
		i := intn(t, "digit", 0, len(s)-1)
		if s[i] == '0' {
			s[i] = '1'
		} else {
			s[i] = '0'
		}
		o["sig"] = string(s)
		how = "corrupted signature"
	}
	if chance(t, "indent", 15) {
		return ref.EncodeIndent(env), how
	}
	return ref.Encode(env), how
}

// record describes data as a parent would, possibly wrongly.
func (p profile) describe(t *rapid.T, version int64, data []byte) (ref.M, string) {
	m := ref.M{"version": version}
	how := ""
	if chance(t, "reclen?", p.record) {
		m["length"] = int64(len(data))
		if chance(t, "badlen", p.rec) {
			m["length"] = int64(len(data)) + pick(t, "lendiff", int64(1), -1, 2, 1000, int64(1)<<32)
			how = "wrong length recorded"
		}
	}
	if chance(t, "rechash?", p.record) {
		algs := pick(t, "algs", []string{"sha256"}, []string{"sha512"}, []string{"sha256", "sha512"})
		h := ref.Hashes(data, algs...)
		m["hashes"] = h
		if chance(t, "badhash", p.rec) {
			a := algs[intn(t, "badalg", 0, len(algs)-1)]
			s := []byte(ref.Str(h[a]))
			switch intn(t, "hashkind", 0, 3) {
			case 0:
				i := intn(t, "hashdigit", 0, len(s)-1)
				s[i] = "1032547698badcfe"[strings.IndexByte("0123456789abcdef", s[i])]
				h[a] = string(s)
			case 1:
				h[a] = string(s[:len(s)-2])
			case 2:
				h[a] = ref.HashOf(a, append([]byte{' '}, data...))
			case 3:
				h["md5"] = "00112233445566778899aabbccddeeff"
			}
			how = "wrong hash recorded"
		}
	}
	if chance(t, "badver", p.rec) {
		m["version"] = version + pick(t, "verdiff", int64(1), -1, 5, 1<<8, 1<<16, 1<<32)
		if ref.Int(m["version"]) < 1 {
			m["version"] = int64(1)
		}
		how = "other version recorded"
	}
	return m, how
}

// clean is the profile without faults.
func (p profile) clean() profile {
	p.sig, p.exp, p.ver, p.rec, p.entries = 0, 0, 0, 0, 0
	return p
}

func note(parts ...string) string {
	var o []string
	for _, p := range parts {
		if p != "" {
			o = append(o, p)
		}
	}
	return strings.Join(o, ", ")
}

var delegPairs = [][2]string{{"targets", "root"}, {"a", "targets"}, {"b", "targets"}, {"c", "a"}, {"c", "b"}}

// pairs that never name a delegation of the generated documents
var oddPairs = [][2]string{{"targets", "targets"}, {"targets", "a"}, {"a", "root"}, {"a", "a"}, {"a", "b"}, {"b", "a"}, {"c", "targets"}, {"c", "root"}, {"c", "c"}}

// generate builds the pool.
func (p profile) generate(t *rapid.T) *pool {
	w := &pool{}
	w.now = time.Date(2030, 6, 15, 12, 0, intn(t, "sec", 0, 59), pick(t, "ns", 0, 0, 1, 500_000_000, 999_999_999), time.UTC)

	// roots: a chain of eras plus faulty candidates
	n := intn(t, "eras", 1, p.roots)
	eras := []era{p.era(t, nil)}
	for i := 1; i < n; i++ {
		eras = append(eras, p.era(t, eras[i-1]))
	}
	v0 := p.version(t, "rootv0", int64(intn(t, "rv", 1, 3)))
	mkRoot := func(i int, v int64, keys []*ref.Key, how string) poolDoc {
		p := p
		if how == "" && chance(t, "cleanroot", 75) {
			p = p.clean()
		}
		exp, e := p.expires(t, w.now)
		if how != "" && chance(t, "long expired", 20) {
			exp, e = ref.FarPast, "long expired"
		}
		top := map[string]ref.RoleSpec{}
		for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
			top[r] = eras[i][r]
		}
		raw, c := p.sign(t, ref.Root(v, exp, chance(t, "cs", 50), top), keys)
		return poolDoc{raw, "", note(fmt.Sprintf("root v%d era %d", v, i), how, e, c)}
	}
	initKeys, initHow := eras[0]["root"].Keys, ""
	if chance(t, "badinit", p.sig/4) {
		initKeys, initHow = p.underSigned(t, eras[0], "root")
	}
	w.init = mkRoot(0, v0, initKeys, initHow)
	for i := 1; i < n; i++ {
		old, cur := eras[i-1]["root"], eras[i]["root"]
		both := append(append([]*ref.Key{}, cur.Keys...), old.Keys...)
		w.roots = append(w.roots, mkRoot(i, v0+int64(i), both, ""))
		for chance(t, "badroot?", p.sig) {
			keys, how := both, ""
			switch intn(t, "badroot", 0, 7) {
			case 0:
				keys, how = cur.Keys, "signed by new keys only"
			case 1:
				keys, how = old.Keys, "signed by old keys only"
			case 2:
				keys, how = append(append([]*ref.Key{}, cur.Keys...), old.Keys[:old.Threshold-1]...), "old keys one short"
			case 3:
				keys, how = append(append([]*ref.Key{}, cur.Keys[:cur.Threshold-1]...), old.Keys...), "new keys one short"
			case 4:
				keys, how = append(append([]*ref.Key{}, cur.Keys[:cur.Threshold]...), old.Keys[:old.Threshold]...), "both thresholds just met"
			case 5, 6:
				keys, how = some(t, "signs", both), "some of the old and new keys"
			case 7:
				keys, how = append(append([]*ref.Key{}, cur.Keys[:cur.Threshold-1]...), old.Keys[:old.Threshold]...), "new keys one short, old ones just met"
			}
			w.roots = append(w.roots, mkRoot(i, v0+int64(i), keys, how))
		}
		if chance(t, "verroot?", p.ver) {
			v := v0 + int64(i) + pick(t, "rootdv", int64(1), -1, 2, -2, 1<<8, 1<<16, 1<<32, 1<<48)
			w.roots = append(w.roots, mkRoot(i, max(v, 1), both, "version off"))
		}
	}
	lastEra := func() era {
		if chance(t, "oldera", 15) {
			return eras[intn(t, "era", 0, n-1)]
		}
		return eras[n-1]
	}

	// targets documents
	for i, k := 0, intn(t, "ntg", 2, 8); i < k; i++ {
		p := p
		role := pick(t, "tgrole", "targets", "targets", "a", "b", "c")
		switch {
		case i == 0:
			role = "targets"
		case i < 4 && chance(t, "tgfirst", 80):
			role = []string{"", "a", "b", "c"}[i]
		}
		e := lastEra()
		if i < 4 && chance(t, "cleantg", 75) {
			p, e = p.clean(), eras[n-1]
		}
		keys, how := p.signers(t, e, role)
		exp, x := p.expires(t, w.now)
		v := p.version(t, "tgv", int64(intn(t, "tgvn", 1, 3)))
		tg := ref.M{fmt.Sprintf("file%d", i): ref.TargetFile([]byte{byte(i)}, "sha256")}
		var del ref.M
		mk := func(names ...string) ref.M {
			roles, ks := []any{}, ref.M{}
			for _, nm := range names {
				o := e[nm].Obj()
				o["name"], o["terminating"], o["paths"] = nm, false, []any{"*"}
				roles = append(roles, o)
				for _, kk := range e[nm].Keys {
					ks[kk.ID()] = kk.Doc()
				}
			}
			return ref.M{"keys": ks, "roles": roles}
		}
		switch role {
		case "targets":
			if chance(t, "deleg", 80) {
				del = mk("a", "b")
			}
		case "a", "b":
			if chance(t, "deleg", 60) {
				del = mk("c")
			}
		}
		raw, c := p.sign(t, ref.Targets(v, exp, tg, del), keys)
		w.tg = append(w.tg, poolDoc{raw, role, note(fmt.Sprintf("%s v%d", role, v), how, x, c)})
	}
	// snapshots
	bulk := 0
	if chance(t, "long snapshots", 12) {
		bulk = intn(t, "bulk", 3, 40)
	}
	for i, k := 0, intn(t, "nsn", 1, 4); i < k; i++ {
		meta := ref.M{}
		how := ""
		p := p
		isClean := i == 0 && chance(t, "cleansn", 75)
		if isClean {
			p = p.clean()
		}
		for _, role := range []string{"targets", "a", "b", "c"} {
			var cand []poolDoc
			for _, d := range w.tg {
				if d.role == role {
					cand = append(cand, d)
				}
			}
			if rate := p.entries; chance(t, "drop-"+role, map[bool]int{true: rate / 3, false: rate}[role == "targets"]) {
				how = note(how, "no entry for "+role)
				// sometimes the very same entry under a name that is not the role's
				if len(cand) > 0 && chance(t, "decoy", 50) {
					d := cand[0]
					m, _ := p.clean().describe(t, must(ref.ParseDoc(d.raw, "targets")).Version(), d.raw)
					nm := pick(t, "decoyname", role, role, role+".JSON", strings.ToUpper(role)+".json", role+".json.json", "1."+role+".json", "./"+role+".json", role+".json ")
					meta[nm] = m
					how = note(how, "but for "+nm)
				}
				continue
			}
			if len(cand) == 0 {
				meta[role+".json"] = ref.M{"version": int64(1)}
				continue
			}
			d := cand[0]
			if !isClean {
				d = cand[intn(t, "rec-"+role, 0, len(cand)-1)]
			}
			dv := must(ref.ParseDoc(d.raw, "targets")).Version()
			m, h := p.describe(t, dv, d.raw)
			if chance(t, "lower-"+role, p.entries/2) && ref.Int(m["version"]) > 1 {
				m["version"] = ref.Int(m["version"]) - 1
			}
			meta[role+".json"] = m
			how = note(how, h)
		}
		if chance(t, "extra entry", 20) {
			meta[pick(t, "extra", "zz.json", "targets", "dir/x.json", ".json", "root.json", "snapshot.json", "timestamp.json")] = ref.M{"version": int64(intn(t, "ev", 1, 5))}
		}
		for j := 0; j < bulk; j++ {
			meta[fmt.Sprintf("n%02d.json", j)] = ref.M{"version": int64(3)}
		}
		if bulk > 0 && !isClean && chance(t, "odd one out", 50) {
			nm := fmt.Sprintf("n%02d.json", intn(t, "odd one", 0, bulk-1))
			switch intn(t, "odd how", 0, 2) {
			case 0:
				delete(meta, nm)
				how = note(how, "no entry for "+nm)
			case 1:
				meta[nm] = ref.M{"version": int64(2)}
				how = note(how, "older "+nm)
			case 2:
				meta[nm] = ref.M{"version": int64(4)}
				how = note(how, "newer "+nm)
			}
		}
		e := lastEra()
		if isClean {
			e = eras[n-1]
		}
		keys, h := p.signers(t, e, "snapshot")
		exp, x := p.expires(t, w.now)
		v := p.version(t, "snv", int64(i+1))
		raw, c := p.sign(t, ref.Snapshot(v, exp, meta), keys)
		w.sn = append(w.sn, poolDoc{raw, "", note(fmt.Sprintf("snapshot v%d", v), how, h, x, c)})
	}
	// timestamps
	for i, k := 0, intn(t, "nts", 1, 5); i < k; i++ {
		d := w.sn[intn(t, "ts-sn", 0, len(w.sn)-1)]
		p := p
		isClean := i == 0 && chance(t, "cleants", 75)
		if isClean {
			p, d = p.clean(), w.sn[0]
		}
		m, h := p.describe(t, must(ref.ParseDoc(d.raw, "snapshot")).Version(), d.raw)
		if chance(t, "snver?", p.ver/2) {
			m["version"] = p.version(t, "tssnv", ref.Int(m["version"]))
		}
		e := lastEra()
		if isClean {
			e = eras[n-1]
		}
		keys, hs := p.signers(t, e, "timestamp")
		exp, x := p.expires(t, w.now)
		v := p.version(t, "tsv", int64(i+1))
		raw, c := p.sign(t, ref.Timestamp(v, exp, m), keys)
		w.ts = append(w.ts, poolDoc{raw, "", note(fmt.Sprintf("timestamp v%d -> snapshot v%d", v, ref.Int(m["version"])), h, hs, x, c)})
	}
	w.junk = []poolDoc{{[]byte(""), "", "empty"}, {[]byte("{}"), "", "empty object"}, {[]byte("not json"), "", "garbage"}}
	return w
}

// state compares the SUT's trusted set with the reference.
func stateDiff(tm *trustedmetadata.TrustedMetadata, r *ref.Trusted) string {
	var d []string
	cmp := func(name string, present bool, b []byte, err error, want *ref.Doc) {
		switch {
		case !present && want == nil:
		case !present:
			d = append(d, name+" missing, want "+brief(want.Raw))
		case want == nil:
			d = append(d, name+" present but must not be")
		case err != nil:
			d = append(d, name+": "+err.Error())
		default:
			// what lies outside the signed part is not authorised content and is
			// C12's subject
			if got := canonSigned(b); got == "" || got != canonSigned(want.Raw) {
				d = append(d, fmt.Sprintf("%s is %s, want %s", name, brief(b), brief(want.Raw)))
			}
		}
	}
	one := func(name string, m interface{ ToBytes(bool) ([]byte, error) }, present bool, want *ref.Doc) {
		var b []byte
		var err error
		if present {
			b, err = m.ToBytes(false)
		}
		cmp(name, present, b, err, want)
	}
	one("root", tm.Root, tm.Root != nil, r.Root)
	one("timestamp", tm.Timestamp, tm.Timestamp != nil, r.TS)
	one("snapshot", tm.Snapshot, tm.Snapshot != nil, r.SN)
	names := map[string]bool{}
	for n := range tm.Targets {
		names[n] = true
	}
	for n := range r.Targets {
		names[n] = true
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		one("role "+n, tm.Targets[n], tm.Targets[n] != nil, r.Targets[n])
	}
	return strings.Join(d, "; ")
}

var canonMemo = map[string]string{}

// canonSigned is the canonical form of a document's signed part.
func canonSigned(doc []byte) string {
	if c, ok := canonMemo[string(doc)]; ok {
		return c
	}
	v, err := ref.Decode(doc)
	c := ""
	if s := ref.Obj(ref.Obj(v)["signed"]); err == nil && s != nil {
		c = string(ref.Canon(s))
	}
	if len(canonMemo) > 2000 {
		clear(canonMemo)
	}
	canonMemo[string(doc)] = c
	return c
}

type step struct {
	kind, role, parent string
	isTrusted          bool
	doc                poolDoc
}

func (s step) String() string {
	x := s.kind
	if s.kind == "targets" {
		x += "(" + s.role + " via " + s.parent + ")"
	}
	if s.isTrusted {
		x += "(trusted)"
	}
	return x + " <- " + s.doc.how
}

func applyRef(r *ref.Trusted, s step) ref.Causes {
	switch s.kind {
	case "root":
		return r.UpdateRoot(s.doc.raw)
	case "timestamp":
		return r.UpdateTimestamp(s.doc.raw)
	case "snapshot":
		return r.UpdateSnapshot(s.doc.raw, s.isTrusted)
	}
	return r.UpdateTargets(s.doc.raw, s.role, s.parent)
}

// applySUT performs the call; same says whether the returned object is the one
// now trusted.
func applySUT(tm *trustedmetadata.TrustedMetadata, s step) (err error, same bool) {
	// a private copy, so that the set cannot depend on shared bytes
	raw := append([]byte(nil), s.doc.raw...)
	defer func() {
		for i := range raw {
			raw[i] = 'x'
		}
	}()
	switch s.kind {
	case "root":
		var m *metadata.Metadata[metadata.RootType]
		m, err = tm.UpdateRoot(raw)
		return err, err != nil || m != nil && m == tm.Root
	case "timestamp":
		var m *metadata.Metadata[metadata.TimestampType]
		m, err = tm.UpdateTimestamp(raw)
		return err, err != nil || m != nil && m == tm.Timestamp
	case "snapshot":
		var m *metadata.Metadata[metadata.SnapshotType]
		m, err = tm.UpdateSnapshot(raw, s.isTrusted)
		return err, err != nil || m != nil && m == tm.Snapshot
	}
	var m *metadata.Metadata[metadata.TargetsType]
	if s.role == "targets" && s.parent == "root" {
		m, err = tm.UpdateTargets(raw)
	} else {
		m, err = tm.UpdateDelegatedTargets(raw, s.role, s.parent)
	}
	return err, err != nil || m != nil && m == tm.Targets[s.role]
}

// moveClock chooses another reference time: somewhere around, or at the expiry
// of one of the documents.
func (p profile) moveClock(t *rapid.T, w *pool) time.Time {
	if chance(t, "to an expiry", 60) {
		var at []time.Time
		for _, l := range [][]poolDoc{{w.init}, w.roots, w.ts, w.sn, w.tg} {
			for _, d := range l {
				v, _ := ref.Decode(d.raw)
				e, err := time.Parse(time.RFC3339, ref.Str(ref.Obj(ref.Obj(v)["signed"])["expires"]))
				if err == nil && e.Year() < 2100 {
					at = append(at, e)
				}
			}
		}
		if len(at) > 0 {
			return at[intn(t, "expiry", 0, len(at)-1)].Add(pick(t, "off", time.Duration(0), 1, -1, time.Second, -time.Second))
		}
	}
	return w.now.Add(pick(t, "move", time.Nanosecond, time.Second, -time.Second, time.Hour, -time.Hour, 2*time.Hour, 365*24*time.Hour, -365*24*time.Hour, 200*365*24*time.Hour))
}

// bundleRun generates and runs one history. check is called after every step
// with the reference's causes and the SUT's error.
func bundleRun(t *rapid.T, p profile, test string, check func(t *rapid.T, hist func() string, s step, before *ref.Trusted, cs ref.Causes, err error)) {
	w := p.generate(t)
	var hist []string
	render := func() string {
		return fmt.Sprintf("reference time %s, initial root: %s\n  %s", w.now.Format(time.RFC3339Nano), w.init.how, strings.Join(hist, "\n  "))
	}
	rec := ev.New(test).Add(w.init.raw)
	start := func(root poolDoc) (*trustedmetadata.TrustedMetadata, *ref.Trusted) {
		tm, err := trustedmetadata.New(append([]byte(nil), root.raw...))
		r, cs := ref.NewTrusted(root.raw, w.now)
		if (err == nil) != (len(cs) == 0) {
			t.Fatalf("initial root %s: got %v, reference says %q\n%s", root.how, errStr(err), cs, root.raw)
		}
		if err != nil {
			if tm != nil {
				t.Fatalf("a trusted set was returned together with error %v", err)
			}
			return nil, nil
		}
		tm.RefTime = w.now
		return tm, r
	}
	tm, r := start(w.init)
	if tm == nil {
		rec.Class("initial root refused").End()
		return
	}
	accepted, refused := 0, 0
	reached := map[string]bool{}
	all := func() []step {
		var out []step
		for _, d := range w.roots {
			out = append(out, step{kind: "root", doc: d})
		}
		for _, d := range w.ts {
			out = append(out, step{kind: "timestamp", doc: d})
		}
		for _, d := range w.sn {
			out = append(out, step{kind: "snapshot", doc: d}, step{kind: "snapshot", doc: d, isTrusted: true})
		}
		for _, d := range w.tg {
			for _, pr := range append(delegPairs[:len(delegPairs):len(delegPairs)], oddPairs...) {
				if pr[0] == d.role {
					out = append(out, step{kind: "targets", role: pr[0], parent: pr[1], doc: d})
				}
			}
		}
		return out
	}
	// sometimes the history focuses on one stage, which needs a few steps at
	// that stage before moving on
	stay := pick(t, "stay", "", "", "root", "timestamp", "timestamp", "snapshot", "snapshot", "targets")
	for i, n := 0, intn(t, "steps", 3, p.steps); i < n; i++ {
		var s step
		if chance(t, "clock", p.clock) {
			w.now = p.moveClock(t, w)
			tm.RefTime, r.Now = w.now, w.now
			hist = append(hist, "reference time becomes "+w.now.Format(time.RFC3339Nano))
			rec.Class("the reference time moves")
		}
		if chance(t, "one reason", p.near) {
			// refusals with a single cause, evenly over stages and causes
			groups := map[string][]step{}
			var order []string
			disorder := chance(t, "disorder", 15)
			for _, c := range all() {
				cs := applyRef(r.Clone(), c)
				if len(cs) != 1 || cs[ref.Order] != disorder {
					continue
				}
				g := c.kind + " " + cs.String()
				if c.kind == "targets" && c.role != "targets" {
					g = "delegated " + g
				}
				if groups[g] == nil {
					order = append(order, g)
				}
				groups[g] = append(groups[g], c)
			}
			if len(order) > 0 {
				l := groups[order[intn(t, "group", 0, len(order)-1)]]
				s = l[intn(t, "near", 0, len(l)-1)]
			}
		}
		if s.kind == "" && chance(t, "guided", p.guided) {
			ok := map[string][]step{}
			var any []step
			for _, c := range all() {
				cl := r.Clone()
				cs := applyRef(cl, c)
				if len(cs) == 0 || ((cl.TS != r.TS || cl.SN != r.SN) && len(ok[c.kind]) == 0) {
					ok[c.kind] = append(ok[c.kind], c)
					any = append(any, c)
				}
			}
			// advance towards deeper stages, but stay a while at one of them
			kind := ""
			switch {
			case len(ok["root"]) > 0 && chance(t, "go root", 70):
				kind = "root"
			case len(ok[stay]) > 0 && chance(t, "go stay", 50):
				kind = stay
			case chance(t, "go deeper", 85):
				for _, k := range []string{"timestamp", "snapshot", "targets"} {
					if len(ok[k]) > 0 {
						kind = k
					}
				}
			}
			ok1 := any
			if kind != "" {
				ok1 = ok[kind]
			}
			if len(ok1) > 0 {
				s = ok1[intn(t, "ok", 0, len(ok1)-1)]
			} else if chance(t, "dead end", 50) {
				break
			}
		}
		if s.kind == "" {
			s.kind = pick(t, "kind", "root", "timestamp", "snapshot", "targets", "targets")
			var docs []poolDoc
			switch s.kind {
			case "root":
				docs = append(append(docs, w.init), w.roots...)
			case "timestamp":
				docs = w.ts
			case "snapshot":
				docs = w.sn
				s.isTrusted = chance(t, "isTrusted", 40)
			case "targets":
				docs = w.tg
				pr := delegPairs[intn(t, "pair", 0, len(delegPairs)-1)]
				s.role, s.parent = pr[0], pr[1]
				if chance(t, "oddpair", 15) {
					s.role = pick(t, "oddrole", "targets", "a", "b", "c", "nobody", "")
					s.parent = pick(t, "oddparent", "root", "targets", "a", "b", "nobody", "")
				}
			}
			if chance(t, "foreign", 6) {
				docs = pick(t, "foreignkind", w.ts, w.sn, w.tg, w.junk, append([]poolDoc{w.init}, w.roots...))
			}
			s.doc = docs[intn(t, "doc", 0, len(docs)-1)]
		}
		before := r.Clone()
		cs := applyRef(r, s)
		var err error
		var same bool
		hist = append(hist, s.String()+" => "+cs.String())
		if pn := guard(func() { err, same = applySUT(tm, s) }); pn != "" {
			t.Fatalf("%s\n%s", pn, render())
		}
		if !same {
			t.Fatalf("the returned metadata is not what is now trusted\n%s", render())
		}
		if d := stateDiff(tm, r); d != "" {
			t.Fatalf("trusted state wrong after step %d: %s\ncall returned: %s, reference causes: %q\n%s\ndocument %s", i+1, d, errStr(err), cs, render(), s.doc.raw)
		}
		if !tm.RefTime.Equal(w.now) {
			t.Fatalf("the reference time changed to %v\n%s", tm.RefTime, render())
		}
		if (err == nil) != (len(cs) == 0) {
			t.Fatalf("step %d: call returned %s, reference causes: %q\n%s\ndocument %s", i+1, errStr(err), cs, render(), s.doc.raw)
		}
		check(t, render, s, before, cs, err)
		if err == nil {
			accepted++
			reached[s.kind] = true
			rec.Class("accepted " + s.kind)
		} else {
			refused++
			for c := range cs {
				rec.Class("refused " + s.kind + ": " + string(c))
			}
			if r.TS != before.TS || r.SN != before.SN {
				rec.Class("retained although reported")
			}
		}
		rec.Add(s.kind, s.role, s.parent, s.isTrusted, s.doc.raw)
		if chance(t, "restart", p.restart) {
			tm, r = start(poolDoc{r.Root.Raw, "", "restart from trusted root"})
			if tm == nil {
				t.Fatalf("the trusted root is refused as initial root\n%s", render())
			}
			hist = append(hist, "restart from the trusted root")
		}
	}
	rec.NonTrivial(accepted >= 1 && accepted+refused >= 2)
	rec.ClassIf(reached["targets"], "reached targets")
	if rec.Wants() {
		rec.Sample(append([]string{"initial " + w.init.how}, hist...))
	}
	rec.End()
}
