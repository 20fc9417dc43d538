package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// parseAny parses raw as the given metadata type.
func parseAny(raw []byte, typ string) (any, error) {
	switch typ {
	case "root":
		return metadata.Root().FromBytes(raw)
	case "timestamp":
		return metadata.Timestamp().FromBytes(raw)
	case "snapshot":
		return metadata.Snapshot().FromBytes(raw)
	case "targets":
		return metadata.Targets().FromBytes(raw)
	}
	panic(typ)
}

// verifyDelegate calls VerifyDelegate on a parsed delegator of any type.
func verifyDelegate(delegator any, role string, doc any) error {
	switch d := delegator.(type) {
	case *metadata.Metadata[metadata.RootType]:
		return d.VerifyDelegate(role, doc)
	case *metadata.Metadata[metadata.TimestampType]:
		return d.VerifyDelegate(role, doc)
	case *metadata.Metadata[metadata.SnapshotType]:
		return d.VerifyDelegate(role, doc)
	case *metadata.Metadata[metadata.TargetsType]:
		return d.VerifyDelegate(role, doc)
	}
	panic(fmt.Sprintf("%T", delegator))
}

// anyKey draws a key of any kind, mostly Ed25519.
func anyKey(t *rapid.T, label string) *ref.Key {
	switch k := intn(t, label+"kind", 0, 19); {
	case k < 14:
		return ref.Ed(intn(t, label, 0, ref.NumEd-1))
	case k < 18:
		return ref.ECDSA(intn(t, label, 0, ref.NumECDSA-1))
	default:
		return ref.RSA(intn(t, label, 0, ref.NumRSA-1))
	}
}

func distinctKeys(t *rapid.T, label string, lo, hi int) []*ref.Key {
	n := intn(t, label+"#", lo, hi)
	seen := map[string]bool{}
	var out []*ref.Key
	for i := 0; len(out) < n && i < 4*n+4; i++ {
		k := anyKey(t, fmt.Sprintf("%s%d", label, i))
		if !seen[k.ID()] {
			seen[k.ID()] = true
			out = append(out, k)
		}
	}
	return out
}

// sampleSigned draws the signed part of some metadata of the given type.
func sampleSigned(t *rapid.T, typ string) ref.M {
	v := int64(intn(t, "dv", 1, 9))
	var s ref.M
	switch typ {
	case "root":
		k := []*ref.Key{ref.Ed(intn(t, "drk", 0, 5))}
		r := ref.RoleSpec{Keys: k, Threshold: 1}
		s = ref.Root(v, ref.FarFuture, chance(t, "dcs", 50), map[string]ref.RoleSpec{"root": r, "timestamp": r, "snapshot": r, "targets": r})
	case "timestamp":
		s = ref.Timestamp(v, ref.FarFuture, ref.M{"version": v})
	case "snapshot":
		s = ref.Snapshot(v, ref.FarFuture, ref.M{"targets.json": ref.M{"version": v}})
	default:
		tg := ref.M{}
		for i, n := 0, intn(t, "dtn", 0, 2); i < n; i++ {
			tg[fmt.Sprintf("dir/file%d é<&>\"\\", i)] = ref.TargetFile([]byte{byte(i)}, "sha256")
		}
		s = ref.Targets(v, ref.FarFuture, tg, nil)
	}
	if chance(t, "dextra", 30) {
		s["x-extra"] = ref.M{"n": int64(intn(t, "dxn", -5, 1<<40)), "s": "a<b>&\u00e9\"\\", "l": []any{true, nil, "x"}}
	}
	return s
}

// respelled is the same public key, written differently.
func respelled(t *rapid.T, k *ref.Key) ref.M {
	d := ref.CloneM(k.Doc())
	v := ref.CloneM(ref.Obj(d["keyval"]))
	pub := ref.Str(v["public"])
	pem := strings.HasPrefix(pub, "-----")
	switch intn(t, "spelling", 0, 6) {
	case 0:
		d["x-note"] = "again"
	case 1:
		v["x-note"] = "again"
	case 2:
		if pem {
			v["public"] = pub + "\n"
		} else {
			v["public"] = strings.ToUpper(pub)
		}
	case 3:
		if pem {
			v["public"] = strings.ReplaceAll(pub, "\n", "\r\n")
		}
	case 4:
		if pem {
			v["public"] = strings.TrimSpace(pub)
		}
	case 5:
		if k.Kind == "ecdsa" {
			d["keytype"] = "ecdsa-sha2-nistp256"
		}
	}
	d["keyval"] = v
	return d
}

// spoiled is a key object no signature can be checked with.
func spoiled(t *rapid.T, k *ref.Key) ref.M {
	d := ref.CloneM(k.Doc())
	v := ref.CloneM(ref.Obj(d["keyval"]))
	pub := ref.Str(v["public"])
	switch intn(t, "spoiled", 0, 3) {
	case 0:
		d["keytype"] = pick(t, "keytype", "", "unknown", "Ed25519", "dsa")
	case 1:
		v["public"] = pub[:intn(t, "keep", 0, len(pub)/2)]
	case 2:
		v["public"] = pick(t, "public", "", "no key at all", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", "zz")
	case 3:
		v["public"] = "zz" + pub
		if strings.HasPrefix(pub, "-----") {
			v["public"] = strings.ReplaceAll(pub, "PUBLIC", "PRIVATE")
		}
	}
	d["keyval"] = v
	return d
}

// TestC01Threshold: differential check of threshold verification.
func TestC01Threshold(t *testing.T) {
	run(t, 450, func(t *rapid.T) {
		kind := pick(t, "delegator", "root", "root", "targets", "targets", "succinct", "succinct", "snapshot", "timestamp", "none")
		hi := 6
		if chance(t, "big", 10) {
			hi = 20
		}
		roleKeys := distinctKeys(t, "rk", 0, hi)
		otherKeys := distinctKeys(t, "ok", 0, 4)
		thr := intn(t, "thr", 1, len(roleKeys)+2)
		if chance(t, "exact", 50) && len(roleKeys) > 0 {
			thr = intn(t, "thr2", 1, len(roleKeys))
		}
		// key ids: permuted, possibly repeated
		ids := []any{}
		for _, k := range roleKeys {
			ids = append(ids, k.ID())
		}
		classes := []string{kind}
		keys := ref.KeysObj(roleKeys, otherKeys)
		alias, unusable := "", ""
		if len(roleKeys) > 0 {
			switch intn(t, "keylist", 0, 10) {
			case 0, 1:
				for i, n := 0, intn(t, "dups", 1, 3); i < n; i++ {
					ids = append(ids, roleKeys[intn(t, "dup", 0, len(roleKeys)-1)].ID())
				}
				classes = append(classes, "duplicate key ids")
			case 2: // the same public key under a second id
				k := roleKeys[intn(t, "alias", 0, len(roleKeys)-1)]
				alias = "alias-" + k.ID()[:8]
				ids = append(ids, alias)
				keys[alias] = respelled(t, k)
				classes = append(classes, "aliased key")
			case 3: // a listed key has no key object
				delete(keys, roleKeys[intn(t, "drop", 0, len(roleKeys)-1)].ID())
				classes = append(classes, "missing key object")
			case 4: // an id that maps to another key's object
				k := roleKeys[intn(t, "swap", 0, len(roleKeys)-1)]
				keys[k.ID()] = anyKey(t, "swapto").Doc()
				classes = append(classes, "key object replaced")
			case 5: // a listed key nobody can use
				k := roleKeys[intn(t, "unusable", 0, len(roleKeys)-1)]
				unusable = k.ID()
				keys[unusable] = spoiled(t, k)
				classes = append(classes, "unusable key object")
			}
		}
		if len(ids) > 1 {
			perm := rapid.Permutation(ids).Draw(t, "perm")
			ids = perm
		}
		spec := ref.M{"keyids": ids, "threshold": thr}
		otherSpec := ref.RoleSpec{Keys: otherKeys, Threshold: 1}.Obj()

		// the delegator and the role asked about
		var delegator ref.M
		role, docType := "", "targets"
		switch kind {
		case "root":
			role = pick(t, "role", "root", "timestamp", "snapshot", "targets")
			docType = role
			rs := ref.M{}
			for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
				rs[r] = otherSpec
			}
			rs[role] = spec
			delegator = ref.Root(1, ref.FarFuture, true, nil)
			delegator["roles"], delegator["keys"] = rs, keys
		case "targets":
			role = pick(t, "role", "a", "b", "dir/role x")
			roles := []any{}
			for _, n := range []string{"a", "b", "dir/role x"} {
				o := ref.CloneM(otherSpec)
				if n == role {
					o = ref.CloneM(spec)
				}
				o["name"], o["terminating"], o["paths"] = n, false, []any{"*"}
				roles = append(roles, o)
			}
			delegator = ref.Targets(1, ref.FarFuture, ref.M{}, ref.M{"keys": keys, "roles": roles})
		case "succinct":
			bits := int64(intn(t, "bits", 1, 32))
			o := ref.CloneM(spec)
			o["bit_length"], o["name_prefix"] = bits, "bin"
			n := rapid.Uint64Range(0, 1<<uint(bits)-1).Draw(t, "bin")
			role = ref.BinName("bin", bits, n)
			delegator = ref.Targets(1, ref.FarFuture, ref.M{}, ref.M{"keys": keys, "succinct_roles": o})
		case "none":
			role = "a"
			delegator = ref.Targets(1, ref.FarFuture, ref.M{}, nil)
		default:
			role = "targets"
			delegator = sampleSigned(t, kind)
		}
		// sometimes ask about a role that is not the one set up
		if chance(t, "otherrole", 12) {
			role = pick(t, "unnamed", "nobody", "", "Root", "bin", "bin-", "bin-zz", "bin-0", "bin-+1", "bin--1", "xbin-0", "bin-100000000", role+"0", role+" ", "targets", "a", "b")
			classes = append(classes, "other role")
		}
		if chance(t, "othertype", 10) {
			docType = pick(t, "doctype", "root", "timestamp", "snapshot", "targets")
		}

		// the document and its signatures
		signed := sampleSigned(t, docType)
		payload := ref.Canon(signed)
		other := ref.CloneM(signed)
		other["version"] = ref.Int(other["version"]) + 1
		otherPayload := ref.Canon(other)
		sigs := []any{}
		used := map[string]bool{}
		addSig := func(id string, s []byte) {
			if !used[id] {
				used[id] = true
				sigs = append(sigs, ref.SigObj(id, s))
			}
		}
		good := 0
		mode := intn(t, "mode", 0, 3) // 0: threshold just met, 1: just missed, 2-3: random
		for i, k := range roleKeys {
			st := intn(t, "sig", 0, 9)
			switch {
			case mode == 0 && good < thr:
				st = 0
			case mode == 1 && good >= thr-1 && st < 4:
				st = 4 + st
			}
			switch st {
			case 0, 1, 2, 3:
				if k.Kind == "rsa" && chance(t, "pss", 50) {
					addSig(k.ID(), k.SignPSS(payload))
				} else {
					addSig(k.ID(), k.Sign(payload))
				}
				good++
			case 4: // corrupted
				s := k.Sign(payload)
				s[intn(t, "flip", 0, len(s)-1)] ^= 1 << intn(t, "bit", 0, 7)
				addSig(k.ID(), s)
			case 5: // over other content
				addSig(k.ID(), k.Sign(otherPayload))
			case 6: // made by another key
				addSig(k.ID(), roleKeys[(i+1)%len(roleKeys)].Sign(payload))
			case 7: // empty or short
				s := k.Sign(payload)
				addSig(k.ID(), s[:intn(t, "cut", 0, len(s)-1)])
			case 8: // extended
				addSig(k.ID(), append(k.Sign(payload), 0))
			}
		}
		if alias != "" && chance(t, "aliassig", 80) {
			for _, k := range roleKeys {
				if alias == "alias-"+k.ID()[:8] {
					addSig(alias, k.Sign(payload))
				}
			}
		}
		for _, k := range otherKeys { // valid, but not this role's
			if chance(t, "osig", 60) {
				addSig(k.ID(), k.Sign(payload))
			}
		}
		if chance(t, "unknown", 30) {
			k := ref.NewEd25519(1000 + intn(t, "uk", 0, 3))
			addSig(k.ID(), k.Sign(payload))
			addSig("not-a-key-id", []byte{1})
		}
		if len(sigs) > 1 && chance(t, "shuffle", 50) {
			sigs = rapid.Permutation(sigs).Draw(t, "sigorder")
		}
		raw := ref.Encode(ref.Envelope(signed, sigs...))
		delRaw := ref.SignAll(delegator)
		if chance(t, "short ids", 20) {
			// names that other delegators use for other keys
			short := map[string]string{}
			for i, k := range append(append([]*ref.Key{}, roleKeys...), otherKeys...) {
				if _, ok := short[k.ID()]; !ok {
					short[k.ID()] = fmt.Sprintf("key-%d", i)
					delRaw = bytes.ReplaceAll(delRaw, []byte(k.ID()), []byte(short[k.ID()]))
				}
			}
			for _, g := range sigs {
				if n, ok := short[ref.Str(ref.Obj(g)["keyid"])]; ok {
					ref.Obj(g)["keyid"] = n
				}
			}
			raw = ref.Encode(ref.Envelope(signed, sigs...))
			classes = append(classes, "keys under short names")
		}

		doc, err := parseAny(raw, docType)
		if err != nil {
			t.Fatalf("cannot parse well-formed %s: %v\n%s", docType, err, raw)
		}
		delDoc, err := parseAny(delRaw, ref.Str(delegator["_type"]))
		if err != nil {
			t.Fatalf("cannot parse well-formed delegator: %v\n%s", err, delRaw)
		}
		rdoc := must(ref.ParseDoc(raw, docType))
		rdel := must(ref.Decode(delRaw)).(ref.M)["signed"].(ref.M)
		d := ref.FindDelegation(rdel, role)
		valid := d.ValidSigners(rdoc.Signed, rdoc.Sigs)
		want := d.Named && d.Threshold >= 1 && int64(valid) >= d.Threshold

		for i := 0; i < 2; i++ {
			var got error
			if p := guard(func() { got = verifyDelegate(delDoc, role, doc) }); p != "" {
				t.Fatalf("VerifyDelegate(%q) %s\ndelegator %s\ndocument %s", role, p, delRaw, raw)
			}
			if got == nil && !want {
				t.Fatalf("accepted for role %q: %d valid of threshold %d (named %v)\ndelegator %s\ndocument %s", role, valid, d.Threshold, d.Named, delRaw, raw)
			}
			if got != nil && want && !d.MissingKey && unusable == "" {
				t.Fatalf("refused for role %q although %d of threshold %d signed: %v\ndelegator %s\ndocument %s", role, valid, d.Threshold, got, delRaw, raw)
			}
		}
		// things that are not metadata are never verified
		for _, x := range []any{nil, raw, "x", doc2value(doc)} {
			if p := guard(func() { err = verifyDelegate(delDoc, role, x) }); p != "" || err == nil {
				t.Fatalf("VerifyDelegate on %T: err=%v %s", x, err, p)
			}
		}

		r := ev.New("C01Threshold").Add(delRaw, raw, role).Class(classes...)
		r.ClassIf(want, "accepted").ClassIf(!want, "refused").ClassIf(d.Named && int64(valid) == d.Threshold-1, "one short").
			ClassIf(d.Named && int64(valid) == d.Threshold, "exactly met").ClassIf(d.Threshold > 1, "threshold>1").ClassIf(len(d.KeyIDs) >= 7, "7+ key ids")
		r.NonTrivial(d.Named && len(sigs) > 0)
		if r.Wants() {
			r.Sample(ref.M{"delegator": kind, "role": role, "doc": docType, "threshold": d.Threshold, "keyids": len(d.KeyIDs), "signatures": len(sigs), "valid": valid, "accepted": want})
		}
		r.End()
	})
}

func doc2value(doc any) any {
	switch d := doc.(type) {
	case *metadata.Metadata[metadata.TargetsType]:
		return d.Signed
	case *metadata.Metadata[metadata.RootType]:
		return d.Signed
	}
	return 7
}

// TestC01ParsedThreshold: thresholds below one never take effect.
func TestC01ParsedThreshold(t *testing.T) {
	run(t, 60, func(t *rapid.T) {
		kind := pick(t, "delegator", "root", "targets", "succinct")
		thr := pick(t, "thr", 0, -1, -2, -1<<31, intn(t, "neg", -100, 0))
		keys := keySet(t, "k", 1, 3)
		spec := ref.RoleSpec{Keys: keys, Threshold: thr}.Obj()
		role, docType := "a", "targets"
		var delegator ref.M
		switch kind {
		case "root":
			role = pick(t, "role", "root", "timestamp", "snapshot", "targets")
			docType = role
			ok := ref.RoleSpec{Keys: keys, Threshold: 1}
			delegator = ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{"root": ok, "timestamp": ok, "snapshot": ok, "targets": ok})
			delegator["roles"].(ref.M)[role] = spec
		case "targets":
			spec["name"], spec["terminating"], spec["paths"] = role, false, []any{"*"}
			delegator = ref.Targets(1, ref.FarFuture, ref.M{}, ref.M{"keys": ref.KeysObj(keys), "roles": []any{spec}})
		case "succinct":
			role = "bin-0"
			spec["bit_length"], spec["name_prefix"] = 1, "bin"
			delegator = ref.Targets(1, ref.FarFuture, ref.M{}, ref.M{"keys": ref.KeysObj(keys), "succinct_roles": spec})
		}
		signed := sampleSigned(t, docType)
		var raw []byte
		signedBy := intn(t, "signers", 0, len(keys))
		raw = ref.SignAll(signed, keys[:signedBy]...)
		r := ev.New("C01ParsedThreshold").Add(kind, role, thr, raw).Class(kind).NonTrivial(true)
		del, err := parseAny(ref.SignAll(delegator, keys...), ref.Str(delegator["_type"]))
		if err == nil {
			doc := must(parseAny(raw, docType))
			if err := verifyDelegate(del, role, doc); err == nil && signedBy == 0 {
				t.Fatalf("unsigned %s accepted for %q under parsed threshold %d", docType, role, thr)
			}
			r.Class("parsed")
		} else {
			r.Class("rejected at parse")
		}
		r.Sample(ref.M{"delegator": kind, "role": role, "threshold": thr, "signers": signedBy}).End()
	})
}
