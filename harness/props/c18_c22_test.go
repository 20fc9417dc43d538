package props

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// lengthsOf collects the sizes of the current documents, to place limits next to
// them.
func lengthsOf(r *ref.Repo) map[string]int64 {
	m := map[string]int64{"timestamp": int64(len(r.CurTS)), "snapshot": int64(len(r.CurSN))}
	for _, d := range r.Roots {
		m["root"] = max(m["root"], int64(len(d)))
	}
	for _, d := range r.CurRole {
		m["targets"] = max(m["targets"], int64(len(d)))
	}
	return m
}

func logDiff(got, want []ref.Request) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(none)", "(none)"
		if i < len(got) {
			g = fmt.Sprintf("%s limit %d", got[i].URL, got[i].Max)
		}
		if i < len(want) {
			w = fmt.Sprintf("%s limit %d", want[i].URL, want[i].Max)
		}
		if g != w {
			return fmt.Sprintf("request %d is %s, expected %s", i+1, g, w)
		}
	}
	return ""
}

// TestC18Requests: the exact sequence of requests with their limits, over
// configurations, failing responses and cache states.
func TestC18Requests(t *testing.T) {
	run(t, 130, func(t *rapid.T) {
		r := genRepo(t)
		for i, n := 0, intn(t, "roots", 0, 5); i < n; i++ {
			if chance(t, "rotroot", 50) {
				r.Rotate("root", roleSpec(t, "rk", 3))
			}
			r.TouchRoot()
			r.Publish()
		}
		first := r.Roots[r.RootV-int64(len(r.Roots))+1]
		cfg := baseConfig()
		cfg.Prefix = chance(t, "prefix", 60)
		cfg.MetaURL = pick(t, "murl", metaURL, metaURL, metaURL+"/", "http://repo.test/deep/er/meta")
		cfg.TargetURL = pick(t, "turl", targetURL, targetURL, targetURL+"/", "")
		if chance(t, "maxroot?", 50) {
			cfg.MaxRoot = int64(intn(t, "maxroot", 0, len(r.Roots)+1))
		}
		limited := ""
		if chance(t, "limits?", 45) {
			l := lengthsOf(r)
			limited = pick(t, "limited", "root", "timestamp", "snapshot", "targets")
			v := l[limited] + int64(pick(t, "limitdiff", 0, 0, -1, 1, 100))
			switch limited {
			case "root":
				cfg.RootMax = v
			case "timestamp":
				cfg.TSMax = v
			case "snapshot":
				cfg.SNMax = v
			case "targets":
				cfg.TGMax = v
			}
		}
		defaultTURL := cfg.TargetURL == ""
		if defaultTURL {
			cfg.TargetURL = ref.DefaultConfig(cfg.MetaURL).TargetURL
		}
		s := newSession(t, cfg)
		defer s.close()
		s.wrap = chance(t, "wraperr", 30)
		rec := ev.New("C18Requests")
		failURL, failStatus := "", 0
		var falseTS, falseSN []byte
		tbase := "" // base address given to DownloadTarget
		s.serve = func(url string, max int64, n int) ref.Resp {
			if failURL != "" && strings.Contains(url, failURL) {
				return ref.Resp{Status: failStatus}
			}
			if falseTS != nil && strings.HasSuffix(url, "/timestamp.json") {
				return ref.Resp{Data: falseTS}
			}
			if ro, ok := roleOf(url); ok && ro == "snapshot" && falseSN != nil {
				return ref.Resp{Data: falseSN}
			}
			if tbase != "" {
				if x := r.Serve(cfg.MetaURL, tbase, url); x.Status != 404 {
					return x
				}
			}
			return r.Serve(cfg.MetaURL, cfg.TargetURL, url)
		}
		s.note("repository: roots up to v%d (%d), consistent=%v, MaxRootRotations %d, limits root %d ts %d sn %d tg %d", r.RootV, len(r.Roots), r.Consistent, cfg.MaxRoot, cfg.RootMax, cfg.TSMax, cfg.SNMax, cfg.TGMax)
		failures := 0
		for i, n := 0, intn(t, "visits", 1, 4); i < n; i++ {
			if i > 0 && chance(t, "evolve", 50) {
				s.note("repository: %s", evolve(t, r))
			}
			failURL = ""
			if chance(t, "failing", 35) {
				failURL = pick(t, "failurl", fmt.Sprintf("/%d.root.json", r.RootV+1), fmt.Sprintf("/%d.root.json", r.RootV), "timestamp.json", "snapshot.json", "targets.json", "a.json", "dir")
				failStatus = pick(t, "failstatus", 403, 404, 500, 410, 400, 401, 503, 204, 301, -1)
				s.note("requests for %s fail with %d", failURL, failStatus)
				rec.Class(fmt.Sprintf("failing with %d", failStatus))
			}
			falseTS, falseSN = nil, nil
			if chance(t, "false length", 12) {
				// the limit is what the parent recorded, whatever that is
				rec.Class("false lengths recorded")
				n := pick[int64](t, "recorded length", 1, 2, 63, 512, 1<<40, 1<<63-1)
				r.TSV++
				if chance(t, "of the targets role", 60) {
					sg := ref.CloneM(ref.Obj(ref.Obj(must(ref.Decode(r.CurSN)))["signed"]))
					names := roleNames(r)
					who := names[intn(t, "whose", 0, len(names)-1)]
					ref.Obj(ref.Obj(sg["meta"])[who+".json"])["length"] = n
					r.SNV++
					sg["version"] = r.SNV
					falseSN = ref.SignAll(sg, r.Top["snapshot"].Keys...)
					falseTS = ref.SignAll(ref.Timestamp(r.TSV, ref.FarFuture, ref.MetaFile(r.SNV, falseSN, true, "sha256")), r.Top["timestamp"].Keys...)
					s.note("the snapshot records that %q has %d bytes", who, n)
				} else {
					sg := ref.CloneM(ref.Obj(ref.Obj(must(ref.Decode(r.CurTS)))["signed"]))
					ref.Obj(ref.Obj(sg["meta"])["snapshot.json"])["length"] = n
					sg["version"] = r.TSV
					falseTS = ref.SignAll(sg, r.Top["timestamp"].Keys...)
					s.note("the timestamp records a snapshot of %d bytes", n)
				}
			}
			root := first
			if c := s.cache["root.json"]; c != nil && chance(t, "cachedroot", 60) {
				root = c
			}
			if !s.start(root) {
				s.fail("a published root is refused as initial root")
			}
			ok := s.refresh()
			if d := logDiff(s.fetch.log, s.rc.Log); d != "" {
				s.fail("refresh: %s", d)
			}
			rec.ClassIf(!ok, "refresh fails").ClassIf(ok, "refresh succeeds")
			if !ok {
				failures++
				continue
			}
			for _, p := range lookups(t, r, intn(t, "lookups", 0, 4)) {
				s.fetch.log, s.rc.Log = nil, nil
				ti, want := s.info(p)
				if d := logDiff(s.fetch.log, s.rc.Log); d != "" {
					s.fail("lookup of %q: %s", p, d)
				}
				rec.ClassIf(len(s.fetch.log) > 0, "lookup downloads delegated roles")
				if ti == nil {
					continue
				}
				tbase = ""
				if chance(t, "tbase", 30) {
					tbase = pick(t, "tbaseurl", "http://mirror.test/t", "http://mirror.test/t/", cfg.TargetURL+"/sub", cfg.TargetURL+"x", strings.TrimSuffix(targetURL, "/files"), cfg.MetaURL, "http://repo.test", targetURL)
				}
				// downloads: address and limit
				s.fetch.log = nil
				var err error
				if pn := guard(func() { _, _, err = s.up.DownloadTarget(ti, filepath.Join(s.base, "out"), tbase) }); pn != "" {
					s.fail("DownloadTarget: %s", pn)
				}
				urls := s.rc.TargetURLs(p, want, tbase)
				if len(s.fetch.log) != 1 {
					s.fail("DownloadTarget(%q) made %d requests", p, len(s.fetch.log))
				}
				q := s.fetch.log[0]
				found := false
				for _, u := range urls {
					found = found || u == q.URL
				}
				if !found || q.Max != ref.Int(want["length"]) {
					s.fail("DownloadTarget(%q) requested %s limit %d, expected one of %v limit %d", p, q.URL, q.Max, urls, ref.Int(want["length"]))
				}
				if err != nil && failURL == "" {
					s.fail("DownloadTarget(%q) of a published target failed: %v", p, err)
				}
				rec.Class("target downloaded").ClassIf(r.Consistent && cfg.Prefix, "hash prefixed")
			}
		}
		rec.ClassIf(cfg.MaxRoot < int64(len(r.Roots)), "more roots than allowed rotations").ClassIf(limited != "", "tight limit on "+limited)
		rec.Add(fmt.Sprint(s.hist), cfg, r.CurTS).NonTrivial(true)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// TestC22Local: local mode never uses the network and answers only from a fully
// valid cache.
func TestC22Local(t *testing.T) {
	run(t, 130, func(t *rapid.T) {
		r := genRepo(t)
		first := r.Roots[r.RootV]
		s := newSession(t, baseConfig())
		defer s.close()
		arch := newArchive()
		arch.record(r)
		rec := ev.New("C22Local")
		// fill the cache by an ordinary visit at some point
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		for i, n := 0, intn(t, "epochs", 0, 2); i < n; i++ {
			evolve(t, r)
			arch.record(r)
		}
		if chance(t, "soonexpired", 20) {
			pick(t, "which", func() { r.TSExpires = ref.FarPast; r.Publish() }, func() { r.SNExpires = ref.FarPast; r.TouchSnapshot(); r.Publish() },
				func() { r.Roles["targets"].Expires = ref.FarPast; r.Roles["targets"].Dirty = true; r.Publish() })()
			s.note("published expired metadata")
		}
		filled := lookups(t, r, intn(t, "fill", 0, 4))
		if chance(t, "filled", 85) {
			s.start(first)
			if s.refresh() {
				for _, p := range filled {
					s.info(p)
				}
			}
		}
		// expired documents are not persisted by a client; place them by hand
		place := func(name string, doc []byte) {
			if doc == nil {
				delete(s.cache, name)
				os.Remove(filepath.Join(s.meta, name))
				return
			}
			s.cache[name] = doc
			os.MkdirAll(s.meta, 0o755)
			if err := os.WriteFile(filepath.Join(s.meta, name), doc, 0o644); err != nil {
				panic(err)
			}
		}
		if chance(t, "place all", 40) {
			place("timestamp.json", r.CurTS)
			place("snapshot.json", r.CurSN)
			for n, d := range r.CurRole {
				place(ref.CacheName(n), d)
			}
			s.note("cache filled by hand with everything published")
		}
		for i, n := 0, pick(t, "damages", 0, 0, 1, 1, 2); i < n; i++ {
			var names []string
			for n := range s.cache {
				names = append(names, n)
			}
			sort.Strings(names)
			if len(names) == 0 {
				break
			}
			name := names[intn(t, "damage", 0, len(names)-1)]
			switch intn(t, "how", 0, 3) {
			case 0:
				place(name, nil)
				s.note("removed %s", name)
			case 1:
				d := append([]byte{}, s.cache[name]...)
				if len(d) > 0 {
					d[intn(t, "pos", 0, len(d)-1)] ^= 1
				}
				place(name, d)
				s.note("changed a bit of %s", name)
			case 2:
				o := arch.order[intn(t, "otherrole", 0, len(arch.order)-1)]
				l := arch.byRole[o]
				place(name, l[intn(t, "otherdoc", 0, len(l)-1)])
				s.note("replaced %s by a document of %s", name, o)
			case 3:
				place(name, []byte{})
				s.note("emptied %s", name)
			}
		}
		// now in local mode; the network would work
		s.cfg.Local = true
		root := first
		if chance(t, "newroot", 50) {
			root = r.Roots[r.RootV]
		}
		if chance(t, "expired root", 12) {
			// however valid everything else is, the given root has expired
			o := ref.Clone(must(ref.ParseDoc(r.Roots[r.RootV], "root")).Signed).(ref.M)
			o["expires"] = ref.FarPast
			root = ref.SignAll(o, r.Top["root"].Keys...)
			s.note("the given root is expired")
			rec.Class("expired root")
		}
		before := copyMap(s.cache)
		if chance(t, "caching off as well", 12) {
			localUncached(t, s, r, root, append(filled, lookups(t, r, 2)...))
			rec.Class("local mode with caching off").Add(fmt.Sprint(s.hist), r.CurTS).End()
			return
		}
		if !s.start(root) {
			s.fail("a published root is refused as initial root")
		}
		ok := false
		if chance(t, "refresh", 70) {
			ok = s.refresh()
		}
		for _, p := range append(filled, lookups(t, r, 2)...) {
			ti, _ := s.info(p)
			rec.ClassIf(ti != nil, "target found locally")
			ok = ok || ti != nil
		}
		if len(s.fetch.log) > 0 {
			s.fail("local mode requested %s", s.fetch.log[0].URL)
		}
		// nothing but the given root was stored
		before["root.json"] = root
		got := readTree(s.meta)
		if d := diffMaps(got, before); d != "" {
			s.fail("local mode changed the cache: %s", d)
		}
		rec.ClassIf(ok, "usable local cache").ClassIf(!ok, "unusable local cache")
		rec.Add(fmt.Sprint(s.hist), r.CurTS).NonTrivial(len(s.cache) > 1)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// localUncached: with caching disabled too, local mode still uses no network,
// writes nothing and finds nothing that a valid cache does not hold.
func localUncached(t *rapid.T, s *session, r *ref.Repo, root []byte, paths []string) {
	before := copyMap(s.cache)
	f := newFetcher(s.serve)
	cfg := s.cfg
	cfg.DisableCache = true
	rc, rerr := ref.NewClient(s.cfg, root, s.cache, time.Now(), refFetch(s.serve))
	up, err := newUpdater(clientOpt{cfg: cfg, root: root, metaDir: s.meta, targetsDir: s.files, fetch: f})
	if err != nil || rerr != nil {
		s.fail("New: %v %v", err, rerr)
	}
	var e error
	if p := guard(func() { e = up.Refresh() }); p != "" {
		s.fail("Refresh: %s", p)
	}
	if re := rc.Refresh(); e == nil && re != nil {
		s.fail("a local refresh with caching off succeeds although the cache is not valid: %v", re)
	}
	for _, p := range paths {
		var ti *metadata.TargetFiles
		if pn := guard(func() { ti, e = up.GetTargetInfo(p) }); pn != "" {
			s.fail("GetTargetInfo: %s", pn)
		}
		if e == nil {
			want, _, _, re := rc.Info(p)
			if re != nil || infoDiff(ti, p, want) != "" {
				s.fail("local lookup of %q with caching off gives %+v, want %v (%v)", p, ti, want, re)
			}
		}
	}
	if len(f.log) > 0 {
		s.fail("local mode with caching off requested %s", f.log[0].URL)
	}
	got := map[string][]byte{}
	if _, err := os.Stat(s.meta); err == nil {
		got = readTree(s.meta)
	}
	if d := diffMaps(got, before); d != "" {
		s.fail("local mode with caching off changed the cache: %s", d)
	}
}

// TestC22NoCache: with caching disabled nothing is written and the answers are
// those of a client with an empty cache.
func TestC22NoCache(t *testing.T) {
	run(t, 70, func(t *rapid.T) {
		r := genRepo(t)
		first := r.Roots[r.RootV]
		arch := newArchive()
		arch.record(r)
		for i, n := 0, intn(t, "epochs", 0, 3); i < n; i++ {
			evolve(t, r)
			arch.record(r)
		}
		cfg := baseConfig()
		cfg.Prefix = chance(t, "prefix", 60)
		rec := ev.New("C22NoCache")
		h := &hostile{t: t, arch: arch, repo: r, percent: pick(t, "hostility", 0, 0, 15, 30)}
		with := newSession(t, cfg)
		defer with.close()
		cfg.DisableCache = true
		without := newSession(t, cfg)
		defer without.close()
		// the same address always gets the same answer
		// (targets honestly: either of several hashes may be chosen for the address)
		serve := func(url string, max int64, n int) ref.Resp {
			if _, isMeta := roleOf(url); !isMeta {
				return r.Serve(metaURL, targetURL, url)
			}
			return h.serve(url, max, 0)
		}
		with.serve, without.serve = serve, serve
		dirs := chance(t, "dirs exist", 40)
		if dirs {
			os.MkdirAll(without.meta, 0o755)
			os.MkdirAll(without.files, 0o755)
			writeTree(without.base, map[string][]byte{"meta/other": []byte("x"), "files/other": []byte("y")})
		} else if chance(t, "no dirs configured", 30) {
			without.meta, without.files = "", ""
		}
		dirsOf := func() string { return fmt.Sprint(listAll(without.base)) + fmt.Sprint(listAll(".")) }
		before := dirsOf()
		if !with.start(first) || !without.start(first) {
			without.fail("a published root is refused as initial root")
		}
		refresh := func(s *session) bool {
			err := s.up.Refresh()
			rerr := s.rc.Refresh()
			if (err == nil) != (rerr == nil) {
				s.fail("Refresh returned %v, reference %v", err, rerr)
			}
			return err == nil
		}
		a := with.refresh()
		b := refresh(without)
		if a != b {
			without.fail("refresh with cache %v, without %v", a, b)
		}
		set := without.up.GetTrustedMetadataSet()
		if d := stateDiff(&set, with.rc.T); d != "" {
			without.fail("without a cache the trusted state is different: %s", d)
		}
		if a {
			for _, p := range lookups(t, r, intn(t, "lookups", 1, 4)) {
				ti, want := with.info(p)
				ti2, err := without.up.GetTargetInfo(p)
				if (ti == nil) != (err != nil) {
					without.fail("lookup of %q with cache: %v, without: %v", p, ti, err)
				}
				if ti == nil {
					continue
				}
				if d := infoDiff(ti2, p, want); d != "" {
					without.fail("lookup of %q without cache: %s", p, d)
				}
				_, data, err1 := with.up.DownloadTarget(ti, "", "")
				explicit := pick(t, "explicit", "", "", filepath.Join(without.base, "explicit"))
				var data2 []byte
				var err2 error
				if pn := guard(func() { _, data2, err2 = without.up.DownloadTarget(ti2, explicit, "") }); pn != "" {
					without.fail("DownloadTarget: %s", pn)
				}
				if (err1 == nil) != (err2 == nil) || string(data) != string(data2) {
					without.fail("download of %q with cache: %v, without: %v", p, err1, err2)
				}
				rec.ClassIf(err2 == nil, "downloaded without cache")
				p3, d3, err3 := without.up.FindCachedTarget(ti2, "")
				if p3 != "" || d3 != nil || err3 != nil {
					without.fail("FindCachedTarget without cache: %q %v", p3, err3)
				}
				// not even a file that is there
				there := filepath.Join(with.base, "there")
				if err2 == nil && os.WriteFile(there, data2, 0o644) == nil {
					p3, d3, err3 = without.up.FindCachedTarget(ti2, there)
					if p3 != "" || d3 != nil || err3 != nil {
						without.fail("FindCachedTarget of a given file without cache: %q %v", p3, err3)
					}
				}
			}
		}
		if after := dirsOf(); after != before {
			without.fail("files changed although caching is disabled:\nbefore %s\nafter  %s", before, after)
		}
		rec.ClassIf(a, "refresh succeeds").ClassIf(!a, "refresh fails").ClassIf(dirs, "directories exist").ClassIf(without.meta == "", "no directories configured")
		rec.Add(fmt.Sprint(with.hist), dirs, without.meta == "").NonTrivial(true)
		if rec.Wants() {
			rec.Sample(with.hist)
		}
		rec.End()
	})
}

// TestC22Multirepo: a multi-repository client with caching disabled writes
// nothing and answers like one that caches.
func TestC22Multirepo(t *testing.T) {
	run(t, 60, func(t *rapid.T) {
		dir := newDir()
		defer rmDir(dir)
		n := intn(t, "repositories", 1, 3)
		names := []string{"one", "two", "a/b"}[:n]
		files := map[string][]byte{"f": []byte("content"), "d/g": {}, "h": content("h", 300)}
		var repos []*ref.Repo
		urls, roots := ref.M{}, map[string][]byte{}
		base, done := theHost().open(func(rest string) ref.Resp {
			for i, r := range repos {
				if p := fmt.Sprintf("%d/", i); strings.HasPrefix(rest, p) {
					return r.Serve("http://x/m", "http://x/m/targets", "http://x/m/"+strings.TrimPrefix(rest, p))
				}
			}
			return ref.Resp{Status: 404}
		})
		defer done()
		for i, name := range names {
			r := plainRepo(chance(t, "consistent", 50))
			for _, p := range []string{"f", "d/g", "h"} {
				if chance(t, p, 75) {
					r.Roles["targets"].Files[p] = files[p]
				}
			}
			r.Roles["targets"].Dirty = true
			r.Publish()
			repos = append(repos, r)
			urls[name] = []any{fmt.Sprintf("%s/%d", base, i)}
			roots[name] = r.Roots[1]
		}
		m := ref.Encode(ref.M{"repositories": urls, "mapping": []any{ref.M{"paths": []any{"*", "*/*"}, "repositories": names, "threshold": intn(t, "threshold", 1, n), "terminating": true}}})
		how := pick(t, "directories", "none", "new", "metadata only", "existing", "existing, with files")
		client := func(d string, off bool) *multirepo.MultiRepoClient {
			c, err := multirepo.NewConfig(m, roots)
			if err != nil {
				t.Fatalf("NewConfig: %v\n%s", err, m)
			}
			c.DisableLocalCache = off
			if how != "none" || !off {
				c.LocalMetadataDir = filepath.Join(d, "meta")
			}
			if how != "none" && how != "metadata only" {
				c.LocalTargetsDir = filepath.Join(d, "files")
			}
			var cl *multirepo.MultiRepoClient
			if p := guard(func() { cl, err = multirepo.New(c) }); p != "" || err != nil {
				t.Fatalf("New with caching off %v (directories: %s): %v %s", off, how, err, p)
			}
			return cl
		}
		off := filepath.Join(dir, "off")
		must(0, os.Mkdir(off, 0o755))
		if strings.HasPrefix(how, "existing") {
			must(0, os.MkdirAll(filepath.Join(off, "meta"), 0o755))
			must(0, os.MkdirAll(filepath.Join(off, "files"), 0o755))
		}
		if how == "existing, with files" {
			writeTree(off, map[string][]byte{"files/f": files["f"], "files/h": []byte("other"), "meta/one/root.json": []byte("x"), "meta/one/targets/f": files["f"]})
		}
		before := fmt.Sprint(listAll(off))
		release := confine()
		defer release()
		with, without := client(filepath.Join(dir, "on"), false), client(off, true)
		rec := ev.New("C22Multirepo").Class("directories: " + how)
		if chance(t, "refresh", 50) {
			if a, b := with.Refresh(), without.Refresh(); a != nil || b != nil {
				t.Fatalf("Refresh: with cache %v, without %v", a, b)
			}
		}
		var asked []string
		for i, k := 0, intn(t, "look-ups", 1, 4); i < k; i++ {
			p := pick(t, "path", "f", "d/g", "h", "none")
			asked = append(asked, p)
			t1, from1, err1 := with.GetTargetInfo(p)
			t2, from2, err2 := without.GetTargetInfo(p)
			if (err1 == nil) != (err2 == nil) {
				t.Fatalf("look-up of %q: with cache %v, without %v", p, err1, err2)
			}
			if err1 != nil {
				rec.Class("no agreement")
				continue
			}
			a, b := append([]string{}, from1...), append([]string{}, from2...)
			slices.Sort(a)
			slices.Sort(b)
			if !t1.Equal(*t2) || !slices.Equal(a, b) {
				t.Fatalf("look-up of %q: with cache %v of %q, without %v of %q", p, t1, a, t2, b)
			}
			_, d1, err1 := with.DownloadTarget(from1, t1, "", "")
			_, d2, err2 := without.DownloadTarget(from2, t2, pick(t, "explicit", "", filepath.Join(off, "explicit")), "")
			if err1 != nil || err2 != nil || string(d1) != string(files[p]) || string(d2) != string(d1) {
				t.Fatalf("download of %q: with cache %v %q, without %v %q", p, err1, d1, err2, d2)
			}
			rec.Class("downloaded without cache")
		}
		if after := fmt.Sprint(listAll(off)); after != before {
			t.Fatalf("files changed although caching is disabled (directories: %s):\nbefore %s\nafter  %s", how, before, after)
		}
		rec.Add(string(m), how, asked).NonTrivial(true).Sample(map[string]any{"map file": string(m), "directories": how, "looked up": asked}).End()
	})
}

// listAll lists every file and directory below dir with type, size, content and
// modification time.
func listAll(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if strings.HasPrefix(p, "testdata") {
			return nil
		}
		x := ""
		if !fi.IsDir() {
			b, _ := os.ReadFile(p)
			x = ref.Hex(ref.SHA256(b))[:12]
		}
		out = append(out, fmt.Sprintf("%s %v %s %d", p, fi.Mode(), x, fi.ModTime().UnixNano()))
		return nil
	})
	return out
}

var _ metadata.TargetFiles
