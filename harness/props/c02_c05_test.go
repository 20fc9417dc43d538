package props

import (
	"errors"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

var (
	profRoot    = profile{name: "root chains", roots: 6, sig: 35, exp: 18, ver: 25, rec: 5, record: 20, entries: 5, guided: 75, steps: 18, restart: 5, rotate: 60, clock: 4, near: 20}
	profVersion = profile{name: "versions", roots: 2, sig: 8, exp: 12, ver: 60, rec: 8, record: 20, entries: 25, guided: 75, steps: 18, restart: 2, rotate: 30, clock: 2, near: 10}
	profExpiry  = profile{name: "expiry and order", roots: 3, sig: 4, exp: 55, ver: 15, rec: 5, record: 20, entries: 5, guided: 75, steps: 18, restart: 2, rotate: 20, clock: 15, near: 10}
	profBinding = profile{name: "recorded facts", roots: 1, sig: 4, exp: 4, ver: 15, rec: 30, record: 75, entries: 15, guided: 75, steps: 18, restart: 2, rotate: 20, clock: 2, near: 10}
	profAll     = profile{name: "everything", roots: 4, sig: 20, exp: 20, ver: 25, rec: 15, record: 50, entries: 15, guided: 75, steps: 18, restart: 3, rotate: 40, clock: 6, near: 15}
	profCauses  = profile{name: "single causes", roots: 2, sig: 8, exp: 30, ver: 25, rec: 15, record: 50, entries: 15, guided: 80, steps: 18, restart: 2, rotate: 30, clock: 8, near: 40}
)

func noCheck(*rapid.T, func() string, step, *ref.Trusted, ref.Causes, error) {}

// TestC02RootChain: trusted sets over histories of root candidates.
func TestC02RootChain(t *testing.T) {
	run(t, 260, func(t *rapid.T) { bundleRun(t, profRoot, "C02RootChain", noCheck) })
}

// TestC03Rollback: histories of correctly signed documents with all kinds of
// versions and entries.
func TestC03Rollback(t *testing.T) {
	run(t, 400, func(t *rapid.T) {
		bundleRun(t, profVersion, "C03Rollback", func(t *rapid.T, hist func() string, s step, before *ref.Trusted, cs ref.Causes, err error) {
			// an equal version is reported as such
			if s.kind == "timestamp" && len(cs) == 1 && cs[ref.EqualVersion] && !errors.Is(err, metadata.ErrEqualVersionNumber{}) {
				t.Fatalf("equal timestamp version reported as %v\n%s", err, hist())
			}
			if !cs[ref.EqualVersion] && errors.Is(err, metadata.ErrEqualVersionNumber{}) {
				t.Fatalf("equal version reported although versions differ: %v\n%s", err, hist())
			}
		})
	})
}

// TestC04OrderExpiry: histories around the expiry instants and in any order.
func TestC04OrderExpiry(t *testing.T) {
	run(t, 400, func(t *rapid.T) { bundleRun(t, profExpiry, "C04OrderExpiry", noCheck) })
}

// TestC05Binding: recorded lengths, hashes and versions against served bytes.
func TestC05Binding(t *testing.T) {
	run(t, 400, func(t *rapid.T) { bundleRun(t, profBinding, "C05Binding", noCheck) })
}

// TestC23Causes: the reported kind matches the cause of refusal.
func TestC23Causes(t *testing.T) {
	run(t, 350, func(t *rapid.T) {
		bundleRun(t, pick(t, "profile", profAll, profCauses, profCauses), "C23Causes", func(t *rapid.T, hist func() string, s step, before *ref.Trusted, cs ref.Causes, err error) {
			if err != nil && !explains(err, cs) {
				t.Fatalf("refusal with causes %q reported as %T %v\n%s", cs, err, err, hist())
			}
		})
	})
}

// TestC23Client: what a client reports when a mirror fails or lies.
func TestC23Client(t *testing.T) {
	run(t, 150, func(t *rapid.T) {
		r := genRepo(t)
		cfg := baseConfig()
		s := newSession(t, cfg)
		defer s.close()
		s.kinds, s.wrap = true, chance(t, "wraperr", 20)
		first := r.Roots[r.RootV]
		arch := newArchive()
		arch.record(r)
		h := &hostile{t: t, arch: arch, sound: true, lasting: map[string]bool{}}
		rec := ev.New("C23Client")
		failed := 0
		for i, n := 0, intn(t, "epochs", 1, 4); i < n; i++ {
			if chance(t, "omit", 30) {
				// the snapshot does not list some role
				r.Omit = map[string]bool{pick(t, "omitted", roleNames(r)...): true}
				r.TouchSnapshot()
			}
			if chance(t, "expired", 20) {
				pick(t, "which", func() { r.TSExpires = ref.FarPast }, func() { r.SNExpires = ref.FarPast; r.TouchSnapshot() }, func() { r.Expires = ref.FarPast; r.TouchRoot() }, func() {
					for _, n := range roleNames(r) {
						if chance(t, "expired "+n, 60) {
							r.Roles[n].Expires, r.Roles[n].Dirty = ref.FarPast, true
						}
					}
				})()
			}
			s.note("repository: %s, omitted %v", evolve(t, r), r.Omit)
			arch.record(r)
			h.repo, h.percent = r, pick(t, "hostility", 0, 10, 20)
			h.mem, h.did = nil, nil
			s.serve = h.serve
			root := first
			if c := s.cache["root.json"]; c != nil && chance(t, "cachedroot", 60) {
				root = c
			}
			if chance(t, "bad root", 5) {
				root = pick(t, "root", r.CurTS, ref.SignAll(ref.Root(1, ref.FarFuture, true, r.Top)), []byte("{}"))
			}
			if !s.start(root) {
				rec.Class("initial root refused")
				continue
			}
			if !s.refresh() {
				failed++
			}
			if chance(t, "look-ups", 80) {
				for _, p := range lookups(t, r, intn(t, "lookups", 1, 3)) {
					if ti, want := s.info(p); ti != nil {
						s.download(ti, want, p)
					} else {
						failed++
					}
				}
			}
			r.Omit = nil
			r.TSExpires, r.SNExpires, r.Expires = ref.FarFuture, ref.FarFuture, ref.FarFuture
			r.TouchSnapshot()
			if chance(t, "new root", 30) {
				r.TouchRoot()
			}
		}
		rec.Add(s.hist).ClassIf(failed > 0, "failures").NonTrivial(failed > 0)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}
