package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// TestC06Converge: an honest repository evolves; clients visit at arbitrary
// points and must always arrive at the latest state.
func TestC06Converge(t *testing.T) {
	run(t, 110, func(t *rapid.T) {
		r := genRepo(t)
		cfg := baseConfig()
		cfg.Prefix = chance(t, "prefix", 70)
		s := newSession(t, cfg)
		defer s.close()
		s.wrap = chance(t, "wraperr", 20)
		// some object stores answer 403 for what does not exist
		missing := pick(t, "missing answers", 404, 404, 403)
		s.serve = func(url string, max int64, n int) ref.Resp {
			a := r.Serve(metaURL, targetURL, url)
			if a.Status == 404 {
				a.Status = missing
			}
			return a
		}
		first := r.Roots[r.RootV]
		rec := ev.New("C06Converge")
		visits, moved, aged := 0, 0, 0
		s.note("initial repository root v%d consistent=%v", r.RootV, r.Consistent)
		for i, n := 0, intn(t, "epochs", 1, 7); i < n; i++ {
			if i > 0 {
				s.note("repository: %s", evolve(t, r))
				moved++
			}
			if i < n-1 && chance(t, "aged", 15) {
				// what the client had stored earlier has expired meanwhile
				s.note("the client's documents have expired: %s", s.agedCache(r))
				aged++
				continue
			}
			if i < n-1 && !chance(t, "visit", 45) {
				continue
			}
			visits++
			root := first
			if c := s.cache["root.json"]; c != nil && chance(t, "cachedroot", 60) {
				root = c
			}
			if !s.start(root) {
				s.fail("a published root is refused as initial root")
			}
			if chance(t, "lazy", 15) {
				// the lookup refreshes by itself
				s.note("lookup without refresh")
			} else if !s.refresh() {
				s.fail("refresh against an honest repository failed")
			} else {
				s.expectHonest(r)
			}
			for _, p := range lookups(t, r, intn(t, "lookups", 1, 4)) {
				ti, got := s.info(p)
				want, holder := publishedInfo(r, p, cfg.MaxDelegations)
				if (want == nil) != (ti == nil) {
					s.fail("lookup of %q: found %v, published by %q", p, ti != nil, holder)
				}
				if ti == nil {
					rec.Class("absent target looked up")
					continue
				}
				if !ref.Same(got, want) {
					s.fail("lookup of %q: %s, published %s", p, ref.Canon(got), ref.Canon(want))
				}
				rec.Class("target found").ClassIf(holder != "targets", "found through delegation")
				s.expectHonest(r)
				s.download(ti, want, p)
				if b := s.files; b != "" {
					got := readTree(b)[ref.QueryEscape(p)]
					if string(got) != string(r.Roles[holder].Files[p]) {
						s.fail("download of %q stored %q, published %q", p, got, r.Roles[holder].Files[p])
					}
				}
			}
		}
		rec.ClassIf(moved > 0, "repository evolved").ClassIf(aged > 0, "cached documents expired meanwhile").ClassIf(visits > 1, "revisited").ClassIf(r.Consistent, "consistent snapshots").ClassIf(r.RootV > 1, "several roots")
		rec.Add(fmt.Sprint(s.hist), r.CurTS, r.CurSN).NonTrivial(visits > 1 || len(r.Roots) > 1)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// TestC07Hostile: visits to mirrors that mix honest and hostile responses, then
// an honest visit.
func TestC07Hostile(t *testing.T) {
	run(t, 140, func(t *rapid.T) {
		r := genRepo(t)
		cfg := baseConfig()
		cfg.Prefix = chance(t, "prefix", 70)
		s := newSession(t, cfg)
		defer s.close()
		first := r.Roots[r.RootV]
		arch := newArchive()
		arch.record(r)
		rec := ev.New("C07Hostile")
		tampers, refused, forged := 0, 0, 0
		s.note("initial repository root v%d", r.RootV)
		staleSN := false     // the current snapshot was published expired
		var staleTG []string // and so were these roles
		renew := func() {
			for _, n := range staleTG {
				r.Roles[n].Expires, r.Roles[n].Dirty = ref.FarFuture, true
			}
			staleTG = nil
		}
		h := &hostile{t: t, arch: arch, lasting: map[string]bool{}}
		for i, n := 0, intn(t, "epochs", 1, 6); i < n; i++ {
			past := chance(t, "expired", 12)
			if past {
				pick(t, "which", func() { r.TSExpires = ref.FarPast }, func() { r.SNExpires = ref.FarPast; r.TouchSnapshot() }, func() {
					for _, n := range roleNames(r) {
						if chance(t, "expired "+n, 60) {
							r.Roles[n].Expires, r.Roles[n].Dirty = ref.FarPast, true
							staleTG = append(staleTG, n)
						}
					}
				})()
			} else {
				renew()
			}
			if staleSN {
				r.TouchSnapshot()
			}
			staleSN = r.SNExpires == ref.FarPast
			if i > 0 || past {
				what := evolve(t, r)
				if past {
					what = note(what, "expired documents")
				}
				s.note("repository: %s", what)
			}
			r.TSExpires, r.SNExpires = ref.FarFuture, ref.FarFuture
			arch.record(r)
			// the mirror may know documents the client will only see later
			future := r
			if chance(t, "future", 25) {
				future = r.Clone()
				evolve(t, future)
				arch.record(future)
			}
			h.repo = future
			lastingKeys(r, h.lasting)
			lastingKeys(future, h.lasting)
			if chance(t, "steal", 15) {
				names := []string{"timestamp", "snapshot"}
				for _, x := range names {
					if chance(t, "steal-"+x, 60) {
						h.stolen = append(h.stolen, r.Top[x].Keys...)
						s.note("keys of %s are stolen", x)
					}
				}
			}
			h.percent = pick(t, "hostility", 0, 10, 25, 50)
			h.mem, h.did, h.tampers = nil, nil, 0
			s.serve = h.serve
			root := first
			if c := s.cache["root.json"]; c != nil && chance(t, "cachedroot", 60) {
				root = c
			}
			if !s.start(root) {
				s.fail("a published root is refused as initial root")
			}
			before := map[string]int64{}
			for _, x := range []string{"timestamp", "snapshot"} {
				if d, err := ref.ParseDoc(s.cache[x+".json"], x); err == nil {
					before[x] = d.Version()
				}
			}
			ok := s.refresh()
			for _, d := range h.did {
				s.note("  mirror: %s", d)
			}
			mark := len(h.did)
			if !ok {
				refused++
			}
			if ok || chance(t, "anyway", 30) {
				for _, p := range lookups(t, future, intn(t, "lookups", 0, 3)) {
					ti, want := s.info(p)
					if ti != nil {
						rec.Class("target found")
						s.download(ti, want, p)
					}
					for _, d := range h.did[mark:] {
						s.note("  mirror: %s", d)
					}
					mark = len(h.did)
				}
			}
			if len(h.stolen) == 0 {
				for x, v := range before {
					if d, err := ref.ParseDoc(s.cache[x+".json"], x); err == nil && d.Version() < v {
						// only possible after the role's keys changed
						if ks := len(r.Roots); ks == 1 {
							s.fail("the cached %s went back from version %d to %d", x, v, d.Version())
						}
					}
				}
			}
			tampers += h.tampers
			r = future
		}
		// recovery: rotate what was stolen, then an honest visit must succeed
		if len(h.stolen) > 0 {
			forged++
			for _, x := range []string{"timestamp", "snapshot"} {
				r.Rotate(x, ref.RoleSpec{Keys: []*ref.Key{ref.NewEd25519(800 + intn(t, "fresh", 0, 5))}, Threshold: 1})
			}
			s.note("stolen keys are replaced")
		}
		if staleSN {
			r.TouchSnapshot()
		}
		renew()
		s.note("repository: %s", evolve(t, r))
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		root := first
		if c := s.cache["root.json"]; c != nil && chance(t, "cachedroot", 60) {
			root = c
		}
		if !s.start(root) {
			s.fail("a published root is refused as initial root")
		}
		if !s.refresh() {
			s.fail("the refresh against the honest repository fails after the hostile episode")
		}
		s.swapped = h.swapped
		s.expectHonest(r)
		for _, p := range lookups(t, r, 2) {
			ti, want := s.info(p)
			if !s.swapped {
				want, _ = publishedInfo(r, p, cfg.MaxDelegations)
			}
			if (want == nil) != (ti == nil) {
				s.fail("lookup of %q wrong after recovery", p)
			}
			if ti != nil {
				s.download(ti, want, p)
			}
		}
		rec.ClassIf(refused > 0, "refresh refused").ClassIf(forged > 0, "key compromise and recovery").ClassIf(tampers > 3, "more than 3 manipulated responses")
		rec.Add(fmt.Sprint(s.hist), r.CurTS).NonTrivial(tampers > 0)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}
