package props

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// TestC02Chain: a client follows chains of roots published by rotation, with
// at most one damaged link, over several visits.
func TestC02Chain(t *testing.T) {
	run(t, 250, func(t *rapid.T) {
		first := int64(pick(t, "first version", 1, 1, 2, 7, 9, 99, 1<<31))
		n := intn(t, "roots", 1, 12)
		p := profile{rotate: pick(t, "rotate", 10, 40, 80)}
		long := chance(t, "long", 3)
		if long {
			n = intn(t, "long chain", 30, 420)
			p.rotate = pick(t, "rare rotation", 1, 5)
		}
		damaged := -1
		if n > 1 && chance(t, "damaged", 55) {
			damaged = intn(t, "damaged link", 1, n-1)
		}
		how := ""
		var docs [][]byte
		var e era
		var old ref.RoleSpec
		for i := 0; i < n; i++ {
			e = p.era(t, e)
			top := map[string]ref.RoleSpec{}
			for _, r := range docTypes {
				top[r] = e[r]
			}
			exp := ref.FarFuture
			if i < n-1 && chance(t, "expired link", 20) {
				exp = ref.FarPast
			}
			v := first + int64(i)
			cur := e["root"]
			keys := append([]*ref.Key{}, cur.Keys...)
			if i > 0 {
				keys = append(keys, old.Keys...)
			}
			if i == damaged {
				how = pick(t, "damage", "old keys only", "new keys only", "old keys one short", "new keys one short", "new keys one short, old ones just met", "some of the keys", "one key repeated", "version skipped", "same version", "older version", "another document", "missing", "forbidden", "server error", "last root expired", "corrupted", "a stranger instead of old keys")
				switch how {
				case "old keys only":
					keys = old.Keys
				case "new keys only":
					keys = cur.Keys
				case "old keys one short":
					keys = append(append([]*ref.Key{}, old.Keys[:old.Threshold-1]...), cur.Keys...)
				case "new keys one short":
					keys = append(append([]*ref.Key{}, cur.Keys[:cur.Threshold-1]...), old.Keys...)
				case "new keys one short, old ones just met":
					keys = append(append([]*ref.Key{}, cur.Keys[:cur.Threshold-1]...), old.Keys[:old.Threshold]...)
				case "some of the keys":
					keys = some(t, "signs", keys)
				case "one key repeated":
					keys = append([]*ref.Key{}, old.Keys...)
					for range cur.Threshold {
						keys = append(keys, cur.Keys[0])
					}
				case "version skipped":
					v++
				case "same version":
					v--
				case "older version":
					v = max(1, v-2)
				case "last root expired":
					if i == n-1 {
						exp = ref.FarPast
					}
				case "a stranger instead of old keys":
					keys = append(append([]*ref.Key{}, cur.Keys...), ref.NewEd25519(700))
				}
			}
			env := ref.SignEnv(ref.Root(v, exp, chance(t, "consistent", 50), top), keys...)
			b := ref.Encode(env)
			switch {
			case i == damaged && how == "another document":
				b = ref.SignAll(ref.Targets(v, ref.FarFuture, ref.M{}, nil), keys...)
			case i == damaged && how == "corrupted":
				b = []byte(strings.Replace(string(b), "expires", "Expires", 1))
			}
			docs = append(docs, b)
			old = cur
		}
		// what the current keys sign
		sign := func(s ref.M, role string) []byte { return ref.SignAll(s, e[role].Keys...) }
		tg := sign(ref.Targets(1, ref.FarFuture, ref.M{"f": ref.TargetFile([]byte("x"), "sha256")}, nil), "targets")
		sn := sign(ref.Snapshot(1, ref.FarFuture, ref.M{"targets.json": ref.MetaFile(1, tg, false)}), "snapshot")
		ts := sign(ref.Timestamp(1, ref.FarFuture, ref.MetaFile(1, sn, false)), "timestamp")
		cfg := baseConfig()
		if chance(t, "bounded", 35) {
			cfg.MaxRoot = int64(intn(t, "bound", 0, n+1))
		} else if long || chance(t, "generous", 20) {
			cfg.MaxRoot = pick(t, "generous bound", int64(n), int64(n)-1, 1000, 1<<31, 1<<40, math.MaxInt64-1, math.MaxInt64)
		}
		s := newSession(t, cfg)
		defer s.close()
		s.wrap = chance(t, "wraperr", 20)
		published := 0
		s.serve = func(url string, max int64, _ int) ref.Resp {
			f := strings.TrimPrefix(url, metaURL+"/")
			for i := 0; i < published; i++ {
				if f == fmt.Sprintf("%d.root.json", first+int64(i)) {
					if i == damaged {
						switch how {
						case "missing":
							return ref.Resp{Status: 404}
						case "forbidden":
							return ref.Resp{Status: 403}
						}
					}
					return ref.Resp{Data: docs[i]}
				}
			}
			switch f {
			case "timestamp.json":
				return ref.Resp{Data: ts}
			case "snapshot.json", "1.snapshot.json":
				return ref.Resp{Data: sn}
			case "targets.json", "1.targets.json":
				return ref.Resp{Data: tg}
			}
			return ref.Resp{Status: 404}
		}
		if how == "server error" { // the answer has to be the same for both clients
			st := pick(t, "status", 500, 503, 400, 410, -1)
			inner := s.serve
			s.serve = func(url string, max int64, k int) ref.Resp {
				if damaged < published && url == fmt.Sprintf("%s/%d.root.json", metaURL, first+int64(damaged)) {
					return ref.Resp{Status: st}
				}
				return inner(url, max, k)
			}
		}
		s.note("roots %d to %d, root %d damaged (%s), at most %d per refresh", first, first+int64(n)-1, first+int64(damaged), how, cfg.MaxRoot)
		rec := ev.New("C02Chain").Add(docs[n-1], how)
		start := intn(t, "trusted", 0, n-1)
		if start == damaged {
			start = 0
		}
		published = start + 1
		updates := 0
		for i, k := 0, intn(t, "visits", 1, 4); i < k; i++ {
			published += intn(t, "publish", 0, n-published)
			if i == k-1 {
				published = n
			}
			root := docs[start]
			if c := s.cache["root.json"]; c != nil && chance(t, "cached root", 60) {
				root = c
			}
			s.note("visit with %d roots published", published)
			if !s.start(root) {
				rec.Class("initial root refused").End()
				return
			}
			before := s.rc.T.Root.Version()
			s.refresh()
			updates += int(s.rc.T.Root.Version() - before)
			rec.ClassIf(damaged >= 0 && start < damaged && s.rc.T.Root.Version() < first+int64(damaged) && published > damaged, "stopped at the damaged link")
		}
		rec.ClassIf(damaged >= 0, "link: "+how).ClassIf(damaged < 0, "sound chain").ClassIf(updates > 0, "roots followed").
			ClassIf(cfg.MaxRoot < int64(n), "bounded rotations").ClassIf(long, "long chain").NonTrivial(n > 1).Sample(s.hist).End()
	})
}

// TestC04Client: a client whose documents (served or cached) are expired or
// not by the real clock, and the reference time sets are made with.
func TestC04Client(t *testing.T) {
	run(t, 220, func(t *rapid.T) {
		at := func(d time.Duration) string { return time.Now().Add(d).UTC().Format("2006-01-02T15:04:05Z") }
		expiry := func(label string, percent int) string {
			if chance(t, label+" expired", percent) {
				return pick(t, label, ref.FarPast, at(-24*time.Hour), at(-time.Hour), at(-2*time.Second))
			}
			return pick(t, label, ref.FarFuture, ref.FarFuture, at(time.Hour), at(24*time.Hour))
		}
		r := genRepo(t)
		cfg := baseConfig()
		s := newSession(t, cfg)
		defer s.close()
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		first := r.Roots[r.RootV]
		rec := ev.New("C04Client")
		refused, ok := 0, 0
		for i, n := 0, intn(t, "epochs", 1, 5); i < n; i++ {
			which := ""
			percent := pick(t, "percent", 0, 0, 20, 60)
			set := func(role string, dst *string, dirty func()) {
				x := expiry(role, percent)
				if x != *dst {
					*dst = x
					dirty()
				}
				if x < at(0) {
					which += role + " "
				}
			}
			if i > 0 || chance(t, "at once", 40) {
				set("root", &r.Expires, r.TouchRoot)
				set("timestamp", &r.TSExpires, func() {})
				set("snapshot", &r.SNExpires, r.TouchSnapshot)
				for _, name := range roleNames(r) {
					ro := r.Roles[name]
					set(name, &ro.Expires, func() { ro.Dirty = true })
				}
				s.note("repository: %s; expired: %s", evolve(t, r), which)
			}
			root := first
			if c := s.cache["root.json"]; c != nil && chance(t, "cached root", 60) {
				root = c
			}
			before := time.Now()
			if !s.start(root) {
				s.fail("a published root is refused as initial root")
			}
			set2 := s.up.GetTrustedMetadataSet()
			if rt := set2.RefTime; rt.Before(before.Add(-time.Millisecond)) || rt.After(time.Now().Add(time.Millisecond)) {
				s.fail("the reference time is %s, the set was made at %s", rt, before)
			}
			if s.refresh() {
				ok++
				if which != "" {
					rec.Class("accepted with an expired document the refresh does not use")
				}
			} else {
				refused++
			}
			for _, p := range lookups(t, r, intn(t, "lookups", 0, 2)) {
				s.info(p)
			}
			if now := s.up.GetTrustedMetadataSet().RefTime; !now.Equal(set2.RefTime) {
				s.fail("the reference time of a client moved from %s to %s", set2.RefTime, now)
			}
		}
		// a set made directly
		before := time.Now()
		tm, err := trustedmetadata.New(first)
		if err != nil {
			s.fail("New: %v", err)
		}
		if rt := tm.RefTime; rt.Before(before.Add(-time.Millisecond)) || rt.After(time.Now().Add(time.Millisecond)) {
			s.fail("the reference time is %s, the set was made at %s", rt, before)
		}
		rec.Add(fmt.Sprint(s.hist), r.CurTS).ClassIf(refused > 0, "refused").ClassIf(ok > 0, "accepted").NonTrivial(refused > 0).Sample(s.hist).End()
	})
}

// TestC05Client: documents that carry the right version and signatures, but
// other bytes than their parent recorded, served or found in the cache, with
// the network and without it.
func TestC05Client(t *testing.T) {
	run(t, 200, func(t *rapid.T) {
		r := genRepo(t)
		cfg := baseConfig()
		s := newSession(t, cfg)
		defer s.close()
		first := r.Roots[r.RootV]
		rec := ev.New("C05Client")
		// another document with the same role, version and signers
		variant := func(role string) []byte {
			doc, keys := r.CurRole[role], ref.RoleSpec{}
			switch role {
			case "snapshot":
				doc, keys = r.CurSN, r.Top["snapshot"]
			default:
				keys = r.Roles[role].Keys
			}
			how := intn(t, "variant", 0, 4)
			if how == 0 {
				// only the formatting differs
				v := ref.Obj(must(ref.Decode(doc)))
				if b := ref.EncodeIndent(v); string(b) != string(doc) {
					return b
				}
				return append([]byte(" "), doc...)
			}
			sg := ref.CloneM(ref.Obj(ref.Obj(must(ref.Decode(doc)))["signed"]))
			switch how {
			case 1:
				sg["x-note"] = "another document"
			case 2:
				// one digit of a late expiry, the length stays
				sg["expires"] = "2998-01-01T00:00:00Z"
			case 3:
				if role == "snapshot" {
					ref.Obj(sg["meta"])["zz.json"] = ref.M{"version": int64(1)}
				} else {
					ref.Obj(sg["targets"])["added"] = ref.TargetFile([]byte("evil"), "sha256")
				}
			case 4:
				sg["version"] = ref.Int(sg["version"]) + 1
			}
			return ref.SignAll(sg, keys.Keys...)
		}
		forged := map[string][]byte{} // what the mirror serves instead, by role
		s.serve = func(url string, max int64, n int) ref.Resp {
			if role, ok := roleOf(url); ok {
				for name, d := range forged {
					if ref.QueryEscape(name) == role {
						return ref.Resp{Data: d}
					}
				}
			}
			return r.Serve(metaURL, targetURL, url)
		}
		place := s.place
		changed, usable, refused := 0, 0, 0
		for i, n := 0, intn(t, "visits", 1, 4); i < n; i++ {
			if i > 0 && chance(t, "evolve", 40) {
				s.note("repository: %s", evolve(t, r))
			}
			clear(forged)
			names := append([]string{"snapshot", "snapshot"}, roleNames(r)...)
			if chance(t, "all cached", 50) {
				place("timestamp", r.CurTS)
				place("snapshot", r.CurSN)
				for _, o := range roleNames(r) {
					place(o, r.CurRole[o])
				}
			}
			for j, k := 0, intn(t, "variants", 0, 2); j < k; j++ {
				o := names[intn(t, "role", 0, len(names)-1)]
				d := variant(o)
				changed++
				if chance(t, "cached", 60) {
					place(o, d)
					s.note("the cached %s is another document: %s", o, d)
				} else {
					forged[o] = d
					s.note("the served %s is another document: %s", o, d)
				}
			}
			s.cfg.Local = chance(t, "local", 50)
			root := first
			if chance(t, "current root", 60) {
				root = r.Roots[r.RootV]
			}
			if !s.start(root) {
				s.fail("a published root is refused as initial root")
			}
			ok := s.refresh()
			if s.cfg.Local {
				rec.ClassIf(ok, "local copy used").ClassIf(!ok, "local copy refused")
			} else {
				rec.ClassIf(ok, "served documents used").ClassIf(!ok, "served documents refused")
			}
			if ok {
				usable++
			} else {
				refused++
			}
			for _, p := range lookups(t, r, intn(t, "lookups", 0, 3)) {
				ti, _ := s.info(p)
				rec.ClassIf(ti != nil && s.cfg.Local, "found locally")
			}
		}
		rec.Add(fmt.Sprint(s.hist), r.CurTS).NonTrivial(changed > 0).Sample(s.hist).End()
	})
}

// TestC03Client: visits to a repository whose own signers move the versions of
// timestamp, snapshot and the listed roles forward, back or not at all, or
// drop roles, everything else being sound; cached documents may be older.
func TestC03Client(t *testing.T) {
	names := []string{"targets", "alpha", "beta/x", "Gamma"}
	run(t, 250, func(t *rapid.T) {
		cons := chance(t, "consistent", 50)
		top := map[string]ref.RoleSpec{}
		for i, n := range docTypes {
			top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
		}
		roots := [][]byte{ref.SignAll(ref.Root(1, ref.FarFuture, cons, top), ref.Ed(0))}
		start := int64(pick(t, "start", 1, 2, 9, 1<<31))
		tsv, snv := start, start
		vers := map[string]int64{}
		for _, n := range names {
			vers[n] = start
		}
		lengths := pick(t, "lengths", 0, 30, 100)
		role := func(name string, v int64) []byte {
			dl := ref.M{}
			if name == "targets" {
				var rs []any
				for _, c := range names[1:] {
					rs = append(rs, ref.M{"name": c, "terminating": false, "paths": []any{"*"}, "keyids": []any{ref.Ed(5).ID()}, "threshold": 1})
				}
				dl = ref.M{"keys": ref.KeysObj([]*ref.Key{ref.Ed(5)}), "roles": rs}
				return ref.SignAll(ref.Targets(v, ref.FarFuture, ref.M{}, dl), top["targets"].Keys...)
			}
			return ref.SignAll(ref.Targets(v, ref.FarFuture, ref.M{"f-" + strings.ToLower(name[:1]): ref.TargetFile([]byte(fmt.Sprint(name, v)), "sha256")}, nil), ref.Ed(5))
		}
		var ts, sn, agedTS, agedSN []byte // as published, and as if their time had run out
		published := map[string][]byte{}
		publish := func() {
			meta := ref.M{}
			clear(published)
			for _, n := range names {
				v, ok := vers[n]
				if !ok {
					continue
				}
				d := role(n, v)
				published[n] = d
				var algs []string
				if chance(t, "hashes", lengths) {
					algs = []string{"sha256"}
				}
				meta[n+".json"] = ref.MetaFile(v, d, chance(t, "length", lengths), algs...)
			}
			sn = ref.SignAll(ref.Snapshot(snv, ref.FarFuture, meta), top["snapshot"].Keys...)
			agedSN = sn
			if chance(t, "snapshot ages", 50) {
				agedSN = ref.SignAll(ref.Snapshot(snv, ref.FarPast, meta), top["snapshot"].Keys...)
			}
			var algs []string
			if chance(t, "snapshot hashes", lengths) {
				algs = []string{"sha512"}
			}
			sized := chance(t, "snapshot length", lengths)
			ts = ref.SignAll(ref.Timestamp(tsv, ref.FarFuture, ref.MetaFile(snv, sn, sized, algs...)), top["timestamp"].Keys...)
			agedTS = ref.SignAll(ref.Timestamp(tsv, ref.FarPast, ref.MetaFile(snv, agedSN, sized, algs...)), top["timestamp"].Keys...)
		}
		s := newSession(t, baseConfig())
		defer s.close()
		s.serve = func(url string, max int64, _ int) ref.Resp {
			f := strings.TrimPrefix(url, metaURL+"/")
			for i, d := range roots {
				if f == fmt.Sprintf("%d.root.json", i+1) {
					return ref.Resp{Data: d}
				}
			}
			if f == "timestamp.json" {
				return ref.Resp{Data: ts}
			}
			if r, ok := roleOf(url); ok {
				if r == "snapshot" {
					return ref.Resp{Data: sn}
				}
				for n, d := range published {
					if ref.QueryEscape(n) == r {
						return ref.Resp{Data: d}
					}
				}
			}
			return ref.Resp{Status: 404}
		}
		rec := ev.New("C03Client")
		older := map[string][][]byte{}
		ok, refused, back := 0, 0, 0
		forward := pick(t, "forward", 50, 80, 95)
		move := func(label string, v *int64) {
			switch {
			case chance(t, label+" forward", forward):
				*v += int64(pick(t, label+" step", 0, 1, 1, 1, 5))
			default:
				n := max(1, *v-int64(pick(t, label+" step", 1, 1, 2, 8)))
				if n < *v {
					back++
				}
				*v = n
			}
		}
		for i, n := 0, intn(t, "visits", 2, 6); i < n; i++ {
			if i > 0 {
				move("timestamp", &tsv)
				move("snapshot", &snv)
				for _, nm := range names {
					if _, ok := vers[nm]; !ok {
						if chance(t, nm+" returns", 50) {
							vers[nm] = start
						}
						continue
					}
					if chance(t, nm+" moves", 40) {
						v := vers[nm]
						move(nm, &v)
						vers[nm] = v
					}
					if !chance(t, nm+" stays", forward/2+50) {
						delete(vers, nm)
						back++
					}
				}
				if chance(t, "rotate", 15) {
					for _, w := range []string{"timestamp", "snapshot"} {
						if chance(t, "rotate "+w, 60) {
							top[w] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(10 + intn(t, "key", 0, 5))}, Threshold: 1}
						}
					}
					roots = append(roots, ref.SignAll(ref.Root(int64(len(roots)+1), ref.FarFuture, cons, top), ref.Ed(0)))
				}
				// somebody puts an older document into the cache
				for _, w := range []string{"timestamp", "snapshot"} {
					if h := older[w]; len(h) > 0 && chance(t, "older "+w, 12) {
						d := h[intn(t, "which", 0, len(h)-1)]
						os.MkdirAll(s.meta, 0o755)
						s.cache[w+".json"] = d
						must(0, os.WriteFile(filepath.Join(s.meta, w+".json"), d, 0o644))
						s.note("the cached %s is replaced by %s", w, d)
					}
				}
			}
			publish()
			older["timestamp"], older["snapshot"] = append(older["timestamp"], ts), append(older["snapshot"], sn)
			s.note("published: timestamp %d, snapshot %d, %v, root %d", tsv, snv, ref.Encode(toM(published)), len(roots))
			if !s.start(roots[0]) {
				s.fail("the first root is refused")
			}
			if s.refresh() {
				ok++
			} else {
				refused++
			}
			if chance(t, "look up", 60) {
				s.info(pick(t, "path", "f-a", "f-b", "f-g", "none"))
			}
			if string(s.cache["timestamp.json"]) == string(ts) && string(s.cache["snapshot.json"]) == string(sn) && chance(t, "time passes", 30) {
				s.place("timestamp", agedTS)
				s.place("snapshot", agedSN)
				s.note("the stored timestamp has expired, the stored snapshot: %v", string(agedSN) != string(sn))
				rec.Class("stored documents expired meanwhile")
			}
		}
		rec.Add(fmt.Sprint(s.hist), sn, ts).ClassIf(ok > 0, "accepted").ClassIf(refused > 0, "refused").ClassIf(back > 0, "something moved back").
			ClassIf(cons, "consistent snapshots").NonTrivial(back > 0).Sample(s.hist).End()
	})
}
