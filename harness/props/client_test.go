package props

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// session runs the real client and the reference client side by side against
// the same response plan, each with its own cache that survives restarts.
type session struct {
	lazy    bool // look-ups leave the comparison of the whole state to the caller
	swapped bool // documents of roles with common keys were exchanged
	t       *rapid.T
	base    string // scratch directory
	meta    string // SUT metadata directory
	files   string // SUT targets directory
	cache   map[string][]byte
	cfg     ref.Config
	// serve answers the n-th request for a URL; it must be a function of its
	// arguments within one visit
	serve func(url string, max int64, n int) ref.Resp
	hist  []string
	// of the current visit
	up    *updater.Updater
	rc    *ref.Client
	fetch *fetcher
	wrap  bool
	// check that errors have the kind of their cause
	kinds bool
}

func newSession(t *rapid.T, cfg ref.Config) *session {
	b := newDir()
	s := &session{t: t, base: b, meta: filepath.Join(b, "meta"), files: filepath.Join(b, "files"), cache: map[string][]byte{}, cfg: cfg}
	return s
}

func (s *session) close() { rmDir(s.base) }

func (s *session) note(f string, a ...any) { s.hist = append(s.hist, fmt.Sprintf(f, a...)) }

func (s *session) fail(f string, a ...any) {
	s.t.Helper()
	msg := fmt.Sprintf(f, a...) + "\nhistory:\n  " + strings.Join(s.hist, "\n  ")
	if s.fetch != nil {
		msg += "\nrequests of this visit:"
		for _, r := range s.fetch.log {
			msg += fmt.Sprintf("\n  %s (limit %d)", r.URL, r.Max)
		}
	}
	s.t.Fatalf("%s", msg)
}

// start creates both clients from the given root.
func (s *session) start(root []byte) bool {
	s.fetch = newFetcher(s.serve)
	s.fetch.wrap = s.wrap
	var err error
	if p := guard(func() {
		s.up, err = newUpdater(clientOpt{cfg: s.cfg, root: append([]byte(nil), root...), metaDir: s.meta, targetsDir: s.files, fetch: s.fetch})
	}); p != "" {
		s.fail("New: %s", p)
	}
	s.fetch.failed = nil
	rc, rerr := ref.NewClient(s.cfg, root, s.cache, time.Now(), refFetch(s.serve))
	if (err == nil) != (rerr == nil) {
		s.fail("New returned %v, reference %v", err, rerr)
	}
	s.rc = rc
	s.kind("New", err, rerr)
	return err == nil
}

// kind checks that an error matches the kind of what caused it.
func (s *session) kind(what string, err, rerr error) {
	if !s.kinds || err == nil {
		return
	}
	switch e := rerr.(type) {
	case ref.RefuseError:
		if !explains(err, e.Causes) {
			s.fail("%s: a refusal because of %q is reported as %T %v", what, e.Causes, err, err)
		}
	case ref.FetchError:
		if s.fetch.failed == nil || s.cfg.Local {
			return
		}
		for _, k := range errKinds {
			if errors.Is(s.fetch.failed, k.zero) != errors.Is(err, k.zero) {
				s.fail("%s: the failed download %v is reported as %T %v", what, s.fetch.failed, err, err)
			}
		}
	}
}

// place puts a document into both caches.
func (s *session) place(role string, doc []byte) {
	s.cache[ref.CacheName(role)] = doc
	err := os.MkdirAll(s.meta, 0o755)
	if err == nil {
		err = os.WriteFile(filepath.Join(s.meta, ref.CacheName(role)), doc, 0o644)
	}
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR %v", err))
	}
}

// agedCache publishes documents that have expired by now, puts them into the
// caches as an earlier visit would have done, and leaves the repository due to
// publish fresh ones.
func (s *session) agedCache(r *ref.Repo) string {
	t := s.t
	what := ""
	if chance(t, "aged timestamp", 60) {
		r.TSExpires = ref.FarPast
		what += " timestamp"
	}
	if chance(t, "aged snapshot", 60) {
		r.SNExpires = ref.FarPast
		r.TouchSnapshot()
		what += " snapshot"
	}
	for _, n := range roleNames(r) {
		if chance(t, "aged "+n, 50) {
			r.Roles[n].Expires, r.Roles[n].Dirty = ref.FarPast, true
			what += " " + n
		}
	}
	r.Publish()
	s.place("root", r.Roots[r.RootV])
	s.place("timestamp", r.CurTS)
	s.place("snapshot", r.CurSN)
	for _, n := range roleNames(r) {
		if n == "targets" || chance(t, "stored "+n, 70) {
			s.place(n, r.CurRole[n])
		}
	}
	r.TSExpires, r.SNExpires = ref.FarFuture, ref.FarFuture
	r.TouchSnapshot()
	for _, n := range roleNames(r) {
		if ro := r.Roles[n]; ro.Expires == ref.FarPast {
			ro.Expires, ro.Dirty = ref.FarFuture, true
		}
	}
	return what
}

// refresh refreshes both and compares everything.
func (s *session) refresh() bool {
	var err error
	if p := guard(func() { err = s.up.Refresh() }); p != "" {
		s.fail("Refresh: %s", p)
	}
	rerr := s.rc.Refresh()
	s.note("refresh: %s (reference: %s)", errStr(err), errStr(rerr))
	if (err == nil) != (rerr == nil) {
		s.fail("Refresh returned %v, reference %v", err, rerr)
	}
	s.kind("Refresh", err, rerr)
	s.compare("Refresh")
	return err == nil
}

// compare checks trusted state and cache contents.
func (s *session) compare(what string) {
	set := s.up.GetTrustedMetadataSet()
	if d := stateDiff(&set, s.rc.T); d != "" {
		s.fail("after %s the trusted state is wrong: %s", what, d)
	}
	if d := s.cacheDiff(); d != "" {
		s.fail("after %s the metadata cache is wrong (left: found, right: expected): %s", what, d)
	}
}

func (s *session) cacheDiff() string {
	got := map[string][]byte{}
	if _, err := os.Stat(s.meta); err == nil {
		got = readTree(s.meta)
	}
	return diffMaps(got, s.cache)
}

// info looks up a target in both.
func (s *session) info(path string) (*metadata.TargetFiles, ref.M) {
	var ti *metadata.TargetFiles
	var err error
	if p := guard(func() { ti, err = s.up.GetTargetInfo(path) }); p != "" {
		s.fail("GetTargetInfo(%q): %s", path, p)
	}
	want, holder, visited, rerr := s.rc.Info(path)
	s.note("lookup %q: %s (reference: %s in %q, visited %v)", path, errStr(err), errStr(rerr), holder, visited)
	if (err == nil) != (rerr == nil) {
		s.fail("GetTargetInfo(%q) returned %v, reference %v (visited %v)", path, err, rerr, visited)
	}
	s.kind("GetTargetInfo", err, rerr)
	if err != nil && ti != nil {
		s.fail("GetTargetInfo(%q) returned both a description and an error %v", path, err)
	}
	if err == nil {
		if d := infoDiff(ti, path, want); d != "" {
			s.fail("GetTargetInfo(%q): %s (held by %q)", path, d, holder)
		}
	}
	if !s.lazy {
		s.compare("GetTargetInfo")
	}
	return ti, want
}

// infoDiff compares a returned description with the published one.
func infoDiff(ti *metadata.TargetFiles, path string, want ref.M) string {
	if ti == nil {
		return "no description returned"
	}
	if ti.Path != path {
		return fmt.Sprintf("path is %q, want %q", ti.Path, path)
	}
	b, err := ti.MarshalJSON()
	if err != nil {
		return err.Error()
	}
	got, err := ref.Decode(b)
	if err != nil {
		return err.Error()
	}
	if !ref.Same(got, want) {
		return fmt.Sprintf("description is %s, want %s", ref.Canon(got), ref.Canon(want))
	}
	return ""
}

// download fetches a target in the SUT and checks the outcome against the
// response plan.
func (s *session) download(ti *metadata.TargetFiles, want ref.M, path string) {
	urls := s.rc.TargetURLs(path, want, "")
	before := readTree(s.files)
	mark := len(s.fetch.log)
	var file string
	var data []byte
	var err error
	if p := guard(func() { file, data, err = s.up.DownloadTarget(ti, "", "") }); p != "" {
		s.fail("DownloadTarget(%q): %s", path, p)
	}
	reqs := s.fetch.log[mark:]
	if len(reqs) != 1 {
		s.fail("DownloadTarget(%q) made %d requests", path, len(reqs))
	}
	ok := false
	for _, u := range urls {
		ok = ok || reqs[0].URL == u
	}
	if !ok {
		s.fail("DownloadTarget(%q) requested %s, acceptable: %v", path, reqs[0].URL, urls)
	}
	if reqs[0].Max != ref.Int(want["length"]) {
		s.fail("DownloadTarget(%q) allowed %d bytes, the description says %d", path, reqs[0].Max, ref.Int(want["length"]))
	}
	r := s.serve(reqs[0].URL, reqs[0].Max, s.fetch.counts[reqs[0].URL]-1)
	good := (r.Status == 0 || r.Status == 200) && int64(len(r.Data)) == ref.Int(want["length"]) && ref.Matches(ref.M{"hashes": want["hashes"]}, r.Data)
	s.note("download %q: %s (served %s matching: %v)", path, errStr(err), brief(r.Data), good)
	if (err == nil) != good {
		s.fail("DownloadTarget(%q) returned %v, but served data matches: %v", path, err, good)
	}
	if !good {
		if s.fetch.failed != nil {
			s.kind("DownloadTarget", err, ref.FetchError{})
		} else {
			s.kind("DownloadTarget", err, ref.RefuseError{What: path, Causes: ref.Causes{ref.Mismatch: true}})
		}
	}
	after := readTree(s.files)
	name := ref.QueryEscape(path)
	exp := copyMap(before)
	if good && !s.cfg.DisableCache {
		exp[name] = r.Data
	}
	if d := diffMaps(after, exp); d != "" {
		s.fail("after DownloadTarget(%q) the targets directory is wrong (left: found, right: expected): %s", path, d)
	}
	if good {
		if string(data) != string(r.Data) {
			s.fail("DownloadTarget(%q) returned other bytes than were served", path)
		}
		if file != filepath.Join(s.files, name) {
			s.fail("DownloadTarget(%q) returned path %q", path, file)
		}
	} else if data != nil {
		s.fail("DownloadTarget(%q) returned data together with an error", path)
	}
	if good && !s.cfg.DisableCache {
		var p2 string
		var d2 []byte
		var err error
		if p := guard(func() { p2, d2, err = s.up.FindCachedTarget(ti, "") }); p != "" {
			s.fail("FindCachedTarget(%q): %s", path, p)
		}
		if err != nil || p2 != file || string(d2) != string(data) {
			s.fail("FindCachedTarget(%q) after a download: %q %v", path, p2, err)
		}
	}
}

// expectHonest checks, without the reference client, that the client is exactly
// at the repository's latest state.
func (s *session) expectHonest(r *ref.Repo) {
	set := s.up.GetTrustedMetadataSet()
	check := func(name string, have bool, v int64, want int64) {
		if !have || v != want {
			s.fail("after an honest refresh %s is at version %d (present %v), published is %d", name, v, have, want)
		}
	}
	check("root", set.Root != nil, set.Root.Signed.Version, r.RootV)
	check("timestamp", set.Timestamp != nil, set.Timestamp.Signed.Version, r.TSV)
	check("snapshot", set.Snapshot != nil, set.Snapshot.Signed.Version, r.SNV)
	check("targets", set.Targets["targets"] != nil, set.Targets["targets"].Signed.Version, r.Roles["targets"].Version)
	if s.cfg.DisableCache {
		return
	}
	for n, want := range map[string][]byte{"root": r.Roots[r.RootV], "timestamp": r.CurTS, "snapshot": r.CurSN, "targets": r.CurRole["targets"]} {
		if n == "targets" && s.swapped {
			continue
		}
		got, _ := os.ReadFile(filepath.Join(s.meta, n+".json"))
		// a mirror may have changed what is outside the signed part
		if string(got) != string(want) && !sameSigned(got, want) {
			s.fail("after an honest refresh the cached %s is %s, published is %s", n, brief(got), brief(want))
		}
	}
}

// sameSigned reports whether two documents have the same signed part.
func sameSigned(a, b []byte) bool {
	x, err := ref.Decode(a)
	if err != nil {
		return false
	}
	y, err := ref.Decode(b)
	return err == nil && ref.Same(ref.Obj(x)["signed"], ref.Obj(y)["signed"])
}

// publishedInfo is the description a lookup must find, from the repository
// alone.
func publishedInfo(r *ref.Repo, path string, limit int) (ref.M, string) {
	holder, signed, _, _ := ref.Walk(path, limit, func(role, parent string) (ref.M, bool) {
		d := must(ref.ParseDoc(r.CurRole[role], "targets"))
		return d.Signed, true
	})
	if holder == "" {
		return nil, ""
	}
	return ref.Obj(ref.Obj(signed["targets"])[path]), holder
}

// ---- hostile mirrors ----

// archive remembers every document ever published (or forged).
type archive struct {
	keys   map[string]map[string]bool // role -> ids of all keys it ever had
	byRole map[string][][]byte        // role -> documents, oldest first
	order  []string
	target [][]byte
}

func newArchive() *archive {
	return &archive{byRole: map[string][][]byte{}, keys: map[string]map[string]bool{}}
}

func (a *archive) add(role string, doc []byte) {
	l := a.byRole[role]
	for _, d := range l {
		if string(d) == string(doc) {
			return
		}
	}
	if l == nil {
		a.order = append(a.order, role)
	}
	a.byRole[role] = append(l, doc)
}

func (a *archive) record(r *ref.Repo) {
	var vs []int64
	for v := range r.Roots {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		a.add("root", r.Roots[v])
	}
	a.add("timestamp", r.CurTS)
	a.add("snapshot", r.CurSN)
	for _, n := range roleNames(r) {
		a.add(n, r.CurRole[n])
		if a.keys[n] == nil {
			a.keys[n] = map[string]bool{}
		}
		for _, k := range r.Roles[n].Keys.Keys {
			a.keys[n][k.ID()] = true
		}
		var ps []string
		for p := range r.Roles[n].Files {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			b := r.Roles[n].Files[p]
			dup := false
			for _, x := range a.target {
				dup = dup || string(x) == string(b)
			}
			if !dup {
				a.target = append(a.target, b)
			}
		}
	}
}

// interchangeable reports whether doc, a targets document, may count as the
// named role's (URL or file form): roles that share keys can be told apart only
// by what the snapshot records, which may be nothing but a version.
func (a *archive) interchangeable(escaped string, doc []byte) bool {
	d, err := ref.ParseDoc(doc, "targets")
	if err != nil {
		return false
	}
	_ = d
	v := must(ref.Decode(doc))
	for n, ids := range a.keys {
		if ref.QueryEscape(n) != escaped {
			continue
		}
		for _, s := range ref.Arr(ref.Obj(v)["signatures"]) {
			if ids[ref.Str(ref.Obj(s)["keyid"])] {
				return true
			}
		}
	}
	return false
}

// roleOf guesses which role a metadata URL asks for.
func roleOf(url string) (string, bool) {
	rel, ok := strings.CutPrefix(url, metaURL+"/")
	if !ok {
		return "", false
	}
	rel = strings.TrimSuffix(rel, ".json")
	if i := strings.IndexByte(rel, '.'); i > 0 && strings.Trim(rel[:i], "0123456789") == "" {
		rel = rel[i+1:]
	}
	return rel, true
}

// hostile answers requests with a mixture of honest and manipulated responses.
// Decisions are drawn on first use of (url, n) and remembered.
type hostile struct {
	t       *rapid.T
	repo    *ref.Repo
	arch    *archive
	percent int
	mem     map[string]ref.Resp
	did     []string
	tampers int
	// keys an attacker holds
	stolen []*ref.Key
	// a document was served for another role that had the same keys
	swapped bool
	// keep documents well-formed (or not JSON at all)
	sound bool
	// keys root or targets roles ever used
	lasting map[string]bool
}

// keyUsed reports whether root or a targets role of the repository uses a key.
func keyUsed(r *ref.Repo, k *ref.Key) bool {
	return lastingKeys(r, map[string]bool{})[k.ID()]
}

func lastingKeys(r *ref.Repo, m map[string]bool) map[string]bool {
	add := func(s ref.RoleSpec) {
		for _, k := range s.Keys {
			m[k.ID()] = true
		}
	}
	add(r.Top["root"])
	for _, o := range r.Roles {
		add(o.Keys)
	}
	return m
}

// flipBit changes one bit of a copy of d, but not the case of a letter (field
// names are matched without regard to case, a known finding of C12).
func flipBit(t *rapid.T, d []byte) []byte {
	d = append([]byte{}, d...)
	if len(d) == 0 {
		return d
	}
	d[intn(t, "pos", 0, len(d)-1)] ^= pick[byte](t, "bit", 1, 2, 4, 8, 16, 64, 128)
	return d
}

func (h *hostile) serve(url string, max int64, n int) ref.Resp {
	k := fmt.Sprintf("%s\x00%d", url, n)
	if r, ok := h.mem[k]; ok {
		return r
	}
	r, how := h.decide(url, max)
	if h.mem == nil {
		h.mem = map[string]ref.Resp{}
	}
	h.mem[k] = r
	if how != "" {
		h.tampers++
	}
	h.did = append(h.did, fmt.Sprintf("%s -> %s", url, note(how, fmt.Sprintf("status %d", r.Status), brief(r.Data))))
	return r
}

func (h *hostile) decide(url string, max int64) (ref.Resp, string) {
	t := h.t
	honest := h.repo.Serve(metaURL, targetURL, url)
	if !chance(t, "tamper?", h.percent) {
		return honest, ""
	}
	role, isMeta := roleOf(url)
	if !isMeta {
		switch intn(t, "tfault", 0, 6) {
		case 0:
			return ref.Resp{Status: pick(t, "tstatus", 404, 403, 500, -1)}, "failure"
		case 1:
			if len(h.arch.target) > 0 {
				return ref.Resp{Data: h.arch.target[intn(t, "othertarget", 0, len(h.arch.target)-1)]}, "another target's bytes"
			}
			return ref.Resp{Data: nil}, "nothing"
		case 2:
			return ref.Resp{Data: append(append([]byte{}, honest.Data...), 'x')}, "one byte more"
		case 3:
			if len(honest.Data) > 0 {
				return ref.Resp{Data: honest.Data[:len(honest.Data)-1]}, "one byte less"
			}
		case 4, 5:
			if len(honest.Data) > 0 {
				d := append([]byte{}, honest.Data...)
				d[intn(t, "tpos", 0, len(d)-1)] ^= 1 << intn(t, "tbit", 0, 7)
				return ref.Resp{Data: d}, "one bit flipped"
			}
		}
		return ref.Resp{Data: []byte{}}, "empty"
	}
	var own [][]byte
	for r, l := range h.arch.byRole {
		if ref.QueryEscape(r) == role {
			own = l
		}
	}
	switch intn(t, "fault", 0, 13) {
	case 0, 1:
		return ref.Resp{Status: pick(t, "status", 404, 403, 500, 404, -1)}, "failure"
	case 2, 3, 4:
		if len(own) > 0 {
			return ref.Resp{Data: own[intn(t, "replay", 0, len(own)-1)]}, "another version of the role"
		}
	case 5, 6:
		o := h.arch.order[intn(t, "crossrole", 0, len(h.arch.order)-1)]
		l := h.arch.byRole[o]
		d := l[intn(t, "cross", 0, len(l)-1)]
		h.swapped = h.swapped || o != role && h.arch.interchangeable(role, d)
		return ref.Resp{Data: d}, "document of " + o
	case 7:
		if honest.Data != nil {
			d := append([]byte{}, honest.Data...)
			if i := bytes.Index(d, []byte(`"sig":`)); h.sound && i >= 0 {
				i += len(`"sig":`)
				i += bytes.IndexByte(d[i:], '"') + 1 + intn(t, "digit", 0, 100)
				d[i] = "123456789abcdef0"[strings.IndexByte("0123456789abcdef", d[i])]
				return ref.Resp{Data: d}, "changed signature"
			}
			// change a digit or letter so that the document stays parsable
			for i, n := 0, intn(t, "flips", 1, 2); i < n; i++ {
				p := intn(t, "pos", 0, len(d)-1)
				for j := 0; j < len(d) && !(d[p] >= '0' && d[p] <= '8' || d[p] >= 'b' && d[p] <= 'e'); j++ {
					p = (p + 1) % len(d)
				}
				d[p]++
			}
			return ref.Resp{Data: d}, "changed characters"
		}
	case 8:
		if honest.Data != nil {
			return ref.Resp{Data: honest.Data[:intn(t, "trunc", 0, len(honest.Data)-1)]}, "truncated"
		}
	case 9:
		if honest.Data != nil {
			return ref.Resp{Data: append(append([]byte{}, honest.Data...), strings.Repeat(" ", intn(t, "pad", 1, 3))...)}, "padded"
		}
	case 10:
		return ref.Resp{Data: []byte(pick(t, "garbage", "", "{}", "null", "[]", "garbage", "{\"signed\":null}", "\x00\xff"))}, "garbage"
	case 11, 12, 13:
		if d, how := h.forge(role, own, honest.Data); d != nil {
			return ref.Resp{Data: d}, how
		}
	}
	return ref.Resp{Status: 404}, "failure"
}

// forge builds a structurally valid document with attacker-chosen content and
// signatures the attacker can make.
func (h *hostile) forge(role string, own [][]byte, honest []byte) ([]byte, string) {
	t := h.t
	src := honest
	if src == nil && len(own) > 0 {
		src = own[len(own)-1]
	}
	if src == nil {
		return nil, ""
	}
	env := ref.Obj(must(ref.Decode(src)))
	s := ref.CloneM(ref.Obj(env["signed"]))
	how := "forged"
	switch intn(t, "forge", 0, 4) {
	case 0:
		s["version"] = ref.Int(s["version"]) + int64(intn(t, "dv", 1, 3))
		how += " higher version"
	case 1:
		if v := ref.Int(s["version"]); v > 1 {
			s["version"] = v - 1
			how += " lower version"
		}
	case 2:
		for _, k := range sortedKeys(ref.Obj(s["meta"])) {
			o := ref.Obj(ref.Obj(s["meta"])[k])
			o["version"] = max(1, ref.Int(o["version"])+int64(intn(t, "mv", -1, 2)))
			delete(o, "hashes")
			delete(o, "length")
		}
		how += " meta"
	case 3:
		s["expires"] = pick(t, "fexp", ref.FarPast, ref.FarFuture)
		how += " expiry"
	case 4:
		s["x-forged"] = true
	}
	// a stolen key that root or a targets role uses as well would be a
	// compromise no key rotation recovers from
	var keys []*ref.Key
	for _, k := range h.stolen {
		if !h.lasting[k.ID()] && !keyUsed(h.repo, k) {
			keys = append(keys, k)
		}
	}
	stranger := ref.NewEd25519(700)
	if len(keys) == 0 || chance(t, "stranger", 30) {
		keys = append(keys, stranger)
	}
	if s["_type"] == "root" && chance(t, "ownroot", 50) {
		// a root that authorises the attacker's key for everything
		ks := ref.KeysObj([]*ref.Key{stranger})
		s["keys"] = ks
		for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
			ref.Obj(s["roles"])[r] = ref.RoleSpec{Keys: []*ref.Key{stranger}, Threshold: 1}.Obj()
		}
		keys = append(keys, stranger)
		how += " own root"
	}
	ne := ref.SignEnv(s, keys...)
	if chance(t, "keepsigs", 40) {
		// attach the honest signatures too (over the old content)
		have := map[string]bool{}
		sigs := ref.Arr(ne["signatures"])
		for _, x := range sigs {
			have[ref.Str(ref.Obj(x)["keyid"])] = true
		}
		for _, x := range ref.Arr(env["signatures"]) {
			if !have[ref.Str(ref.Obj(x)["keyid"])] {
				sigs = append(sigs, x)
			}
		}
		ne["signatures"] = sigs
		how += " with old signatures"
	}
	return ref.Encode(ne), how
}

func sortedKeys(m ref.M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = hex.EncodeToString
