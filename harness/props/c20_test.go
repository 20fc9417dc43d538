package props

import (
	"errors"
	"fmt"
	"io/fs"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// ---- loopback server ----

// httpHost serves cases at http://addr/<case>/...
type httpHost struct {
	addr  string
	cases sync.Map // case -> func(rest string) ref.Resp
	seq   atomic.Int64
}

var theHost = sync.OnceValue(func() *httpHost {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR cannot listen: %v", err))
	}
	h := &httpHost{addr: l.Addr().String()}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		id, rest, _ := strings.Cut(strings.TrimPrefix(r.URL.EscapedPath(), "/"), "/")
		if r.URL.RawQuery != "" {
			rest += "?" + r.URL.RawQuery
		}
		f, ok := h.cases.Load(id)
		if !ok {
			w.WriteHeader(404)
			return
		}
		x := f.(func(string) ref.Resp)(rest)
		switch {
		case x.Status == -1: // cut the connection
			panic(http.ErrAbortHandler)
		case x.Status != 0 && x.Status != 200:
			w.WriteHeader(x.Status)
		default:
			w.Write(x.Data)
		}
	}))
	return h
})

// open registers a case and returns its base address.
func (h *httpHost) open(f func(rest string) ref.Resp) (string, func()) {
	id := fmt.Sprint(h.seq.Add(1))
	h.cases.Store(id, f)
	return "http://" + h.addr + "/" + id, func() { h.cases.Delete(id) }
}

// ---- model ----

type mrMapping struct {
	paths  []string
	repos  []string
	thr    int
	ending bool
}

func agree(a, b ref.M) bool {
	if ref.Int(a["length"]) != ref.Int(b["length"]) {
		return false
	}
	shared := false
	bh := ref.Obj(b["hashes"])
	for alg, h := range ref.Obj(a["hashes"]) {
		if o, ok := bh[alg]; ok {
			shared = true
			if o != h {
				return false
			}
		}
	}
	return shared
}

func mrCovers(m mrMapping, path string) bool {
	for _, p := range m.paths {
		if ref.PathMatch(p, path) {
			return true
		}
	}
	return false
}

// mrAnswer is what a look-up must give. With open set the agreement relation
// of the descriptions is not an equivalence, so that several answers are
// defensible: err is then not decided.
type mrAnswer struct {
	repos []string
	desc  []ref.M // acceptable descriptions
	err   bool
	open  bool
	rest  []mrMapping // the first undecided mapping and those after it
}

func mrLookup(ms []mrMapping, path string, desc func(repo string) ref.M) mrAnswer {
	for i := range ms {
		m := &ms[i]
		if !mrCovers(*m, path) {
			continue
		}
		var order []string
		have := map[string]ref.M{}
		for _, r := range m.repos {
			if _, ok := have[r]; ok {
				continue
			}
			if d := desc(r); d != nil {
				have[r] = d
				order = append(order, r)
			}
		}
		// groups of agreeing repositories
		var groups [][]string
		open := false
		for _, r := range order {
			in := -1
			for g := range groups {
				n := 0
				for _, o := range groups[g] {
					if agree(have[r], have[o]) {
						n++
					}
				}
				if n > 0 && (n < len(groups[g]) || in >= 0) {
					open = true
				}
				if n > 0 && in < 0 {
					in = g
				}
			}
			if in < 0 {
				groups = append(groups, nil)
				in = len(groups) - 1
			}
			groups[in] = append(groups[in], r)
		}
		for _, d := range have {
			if !agree(d, d) {
				open = true // a description without hashes agrees with nothing, not even itself
			}
		}
		if open {
			return mrAnswer{open: true, rest: ms[i:]}
		}
		var win [][]string
		for _, g := range groups {
			if len(g) >= m.thr {
				win = append(win, g)
			}
		}
		switch {
		case len(win) > 1:
			return mrAnswer{err: true}
		case len(win) == 1:
			a := mrAnswer{repos: win[0]}
			for _, r := range win[0] {
				a.desc = append(a.desc, have[r])
			}
			return a
		}
		if m.ending {
			break
		}
	}
	return mrAnswer{err: true}
}

var mrNames = []string{"a", "b", "repo c", "d/e"}

func TestC20Multirepo(t *testing.T) {
	paths := []string{"f", "dir/f", "dir/g", "x", "dir/sub/x", "é"}
	patterns := []string{"*", "*/*", "dir/*", "f", "dir/f", "?", "d*/[fg]", "*/*/*", "é", "nothing", "[a-f]", "dir/sub/*", "*f"}
	run(t, 900, func(t *rapid.T) {
		defer countLogs(100000)()
		dir := newDir()
		defer rmDir(dir)

		// the repositories
		n := intn(t, "repositories", 1, 4)
		names := mrNames[:n]
		repos := map[string]*ref.Repo{}
		descs := map[string]map[string]ref.M{} // repo -> path -> description found there
		broken := map[string]string{}
		data := map[string]map[string][]byte{} // what each repository serves as the bytes of a path
		bodies := [][]byte{[]byte("the content"), []byte("the c0ntent"), []byte("longer content"), {}}
		common := map[string]int{}
		for _, p := range paths {
			common[p] = pick(t, "usual body", 0, 0, 1, 2, 3)
		}
		for i, name := range names {
			ks := map[string]ref.RoleSpec{}
			for j, r := range []string{"root", "timestamp", "snapshot", "targets"} {
				ks[r] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i*5 + j)}, Threshold: 1}
			}
			r := ref.NewRepo(ks, chance(t, "consistent", 70))
			var sub *ref.TRole
			if chance(t, "delegation", 40) {
				sub = r.AddRole("sub", ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i*5 + 4)}, Threshold: 1})
				r.Roles["targets"].Delegs = []ref.Deleg{{Name: "sub", Paths: []string{"dir/*", "x", "*/*/*"}}}
			}
			top, del := ref.M{}, ref.M{}
			descs[name], data[name] = map[string]ref.M{}, map[string][]byte{}
			odd := chance(t, "odd one", 25)
			for _, p := range paths {
				if chance(t, "absent", 20) {
					continue
				}
				b := bodies[common[p]]
				if odd || chance(t, "other body", 15) {
					b = bodies[intn(t, "body", 0, len(bodies)-1)]
				}
				algs := []string{"sha256"}
				if chance(t, "other algorithms", 25) {
					algs = pick(t, "algorithms", []string{"sha512"}, []string{"sha256", "sha512"})
				}
				d := ref.TargetFile(b, algs...)
				if chance(t, "false length", 4) {
					d["length"] = int64(len(b)) + 1
				}
				if chance(t, "false digest", 4) {
					ref.Obj(d["hashes"])[algs[len(algs)-1]] = ref.HashOf(algs[len(algs)-1], []byte("other"))
				}
				if chance(t, "custom", 30) {
					d["custom"] = ref.M{"by": name}
				}
				in := top
				if sub != nil && (strings.HasPrefix(p, "dir/") || p == "x") && chance(t, "delegated", 50) {
					in = del
				}
				in[p] = d
				descs[name][p] = d
				served := b
				switch intn(t, "served", 0, 9) {
				case 0:
					served = bodies[intn(t, "served body", 0, len(bodies)-1)]
				case 1:
					served = nil
				}
				data[name][p] = served
			}
			r.Roles["targets"].Extra = ref.M{"targets": top}
			if sub != nil {
				sub.Extra = ref.M{"targets": del}
			}
			what := ""
			if chance(t, "broken", 9) {
				what = pick(t, "how", "expired", "no timestamp", "error", "bad snapshot", "bad root", "no snapshot")
				if what == "expired" {
					r.TSExpires = ref.FarPast
				}
			}
			r.Publish()
			broken[name] = what
			repos[name] = r
		}
		var log []string
		var mu sync.Mutex
		base, done := theHost().open(func(rest string) ref.Resp {
			id, file, _ := strings.Cut(rest, "/")
			i := int(id[0] - '0')
			mu.Lock()
			log = append(log, rest)
			mu.Unlock()
			name := names[i]
			r := repos[name]
			if p, ok := strings.CutPrefix(file, "targets/"); ok {
				for path, b := range data[name] {
					d, f := filepath.Split(path)
					for _, h := range append([]string{""}, hashList(descs[name][path])...) {
						if h != "" {
							h += "."
						}
						if q := d + h + f; q == p || strings.ReplaceAll(q, "é", "%C3%A9") == p {
							if (h != "") != r.Consistent {
								continue
							}
							if b == nil {
								return ref.Resp{Status: 404}
							}
							return ref.Resp{Data: b}
						}
					}
				}
				return ref.Resp{Status: 404}
			}
			x := r.Serve("", "none", "/"+file)
			switch {
			case broken[name] == "no timestamp" && file == "timestamp.json", broken[name] == "no snapshot" && strings.HasSuffix(file, "snapshot.json"):
				return ref.Resp{Status: 404}
			case broken[name] == "error":
				return ref.Resp{Status: 500}
			case broken[name] == "bad snapshot" && strings.HasSuffix(file, "snapshot.json"):
				x.Data = append([]byte(nil), x.Data...)
				x.Data[len(x.Data)/2] ^= 1
			case broken[name] == "bad root" && file == "2.root.json":
				return ref.Resp{Data: []byte("{}")}
			}
			return x
		})
		defer done()

		// the map
		var ms []mrMapping
		for i, k := 0, intn(t, "mappings", 1, 4); i < k; i++ {
			m := mrMapping{ending: chance(t, "terminating", 25), thr: pick(t, "threshold", 1, 1, 2, 2, 3, 4)}
			for j, l := 0, intn(t, "patterns", 1, 3); j < l; j++ {
				if chance(t, "broad pattern", 45) {
					m.paths = append(m.paths, pick(t, "broad", "*", "*/*"))
					continue
				}
				m.paths = append(m.paths, pick(t, "pattern", patterns...))
			}
			for j, l := 0, intn(t, "listed", 1, n+1); j < l; j++ {
				m.repos = append(m.repos, names[intn(t, "listed repository", 0, n-1)])
			}
			if chance(t, "all listed", 50) {
				m.repos = append([]string{}, names...)
				if chance(t, "one twice", 20) {
					m.repos = append(m.repos, names[intn(t, "repeated", 0, n-1)])
				}
			}
			ms = append(ms, m)
		}
		urls, mapping, roots := ref.M{}, []any{}, map[string][]byte{}
		for i, name := range names {
			urls[name] = []any{fmt.Sprintf("%s/%d", base, i)}
			if chance(t, "further addresses", 15) {
				// the first one is the one in use
				for j, l := 0, intn(t, "addresses", 1, 2); j < l; j++ {
					urls[name] = append(urls[name].([]any), fmt.Sprintf("%s/%d", base, intn(t, "address", 0, n-1)))
				}
			}
			if chance(t, "slash", 10) {
				urls[name].([]any)[0] = fmt.Sprintf("%s/%d/", base, i)
			}
			roots[name] = append([]byte(nil), repos[name].Roots[1]...)
		}
		for _, m := range ms {
			mapping = append(mapping, ref.M{"paths": m.paths, "repositories": m.repos, "threshold": m.thr, "terminating": m.ending})
		}
		mapFile := ref.Encode(ref.M{"repositories": urls, "mapping": mapping})
		cfg, err := multirepo.NewConfig(mapFile, roots)
		if err != nil {
			t.Fatalf("NewConfig: %v\n%s", err, mapFile)
		}
		cfg.LocalMetadataDir = filepath.Join(dir, "metadata")
		shared := chance(t, "shared targets directory", 60)
		if shared {
			cfg.LocalTargetsDir = filepath.Join(dir, "files")
		}
		cfg.DisableLocalCache = chance(t, "no cache", 15)
		var c *multirepo.MultiRepoClient
		if p := guard(func() { c, err = multirepo.New(cfg) }); p != "" || err != nil {
			t.Fatalf("New: %v %s\n%s", err, p, mapFile)
		}
		hist := []string{string(mapFile), fmt.Sprint("broken: ", broken)}
		for _, name := range names {
			hist = append(hist, fmt.Sprintf("%s: %s", name, ref.Encode(toMM(descs[name]))))
		}
		fail := func(f string, a ...any) {
			t.Helper()
			mu.Lock()
			defer mu.Unlock()
			t.Fatalf("%s\n%s\nrequests: %v", fmt.Sprintf(f, a...), strings.Join(hist, "\n"), log)
		}
		allWell := true
		for _, w := range broken {
			allWell = allWell && w == ""
		}
		if chance(t, "refresh", 40) {
			var err error
			if p := guard(func() { err = c.Refresh() }); p != "" {
				fail("Refresh: %s", p)
			}
			if (err == nil) != allWell {
				fail("Refresh returned %v", err)
			}
			if err == nil && chance(t, "top-level targets", 50) {
				var tops map[string]*metadata.TargetFiles
				if p := guard(func() { tops, err = c.GetTopLevelTargets() }); p != "" {
					fail("GetTopLevelTargets: %s", p)
				}
				if err == nil {
					for _, name := range names {
						for p := range ref.Obj(repos[name].Roles["targets"].Extra["targets"]) {
							if tops[p] == nil {
								fail("GetTopLevelTargets leaves out %q", p)
							}
						}
					}
					for p, tf := range tops {
						a := mrLookup(ms, p, func(r string) ref.M { return descs[r][p] })
						if !a.open && (a.err || !oneOf(tf, p, a.desc)) {
							fail("GetTopLevelTargets: %q is %s", p, must(tf.MarshalJSON()))
						}
					}
				}
			}
		}
		rec := ev.New("C20Multirepo").Add(mapFile, string(ref.Encode(toMM2(descs))), fmt.Sprint(broken))
		agreed, downloads := 0, 0
		for i, k := 0, intn(t, "look-ups", 2, 5); i < k; i++ {
			path := pick(t, "path", append(paths, pick(t, "a known path", paths...), "unknown")...)
			desc := func(r string) ref.M {
				if broken[r] != "" {
					return nil
				}
				return descs[r][path]
			}
			a := mrLookup(ms, path, desc)
			var ti *metadata.TargetFiles
			var from []string
			var err error
			if p := guard(func() { ti, from, err = c.GetTargetInfo(path) }); p != "" {
				fail("GetTargetInfo(%q): %s", path, p)
			}
			hist = append(hist, fmt.Sprintf("look-up %q: %s from %q", path, errStr(err), from))
			if err != nil && (ti != nil || len(from) > 0) {
				fail("GetTargetInfo(%q) returned an answer together with %v", path, err)
			}
			switch {
			case a.open:
				rec.Class("agreement not transitive")
				if err == nil {
					// whatever is returned must still be backed by a threshold
					seen := map[string]bool{}
					for _, r := range from {
						d := desc(r)
						if d == nil || seen[r] {
							fail("GetTargetInfo(%q): %q cannot back the answer", path, r)
						}
						seen[r] = true
						if x := (metadata.TargetFiles{}); x.UnmarshalJSON(ref.Encode(d)) != nil || !(ti.Equal(x) || len(from) == 1) {
							fail("GetTargetInfo(%q): %q does not agree with the answer", path, r)
						}
					}
					backed := false
					for _, m := range a.rest { // the undecided mapping or a later one must have given the answer
						ok := mrCovers(m, path) && len(seen) >= m.thr
						for r := range seen {
							ok = ok && slices.Contains(m.repos, r)
						}
						backed = backed || ok
					}
					if !backed {
						fail("GetTargetInfo(%q): no mapping accepts the answer of %q", path, from)
					}
				}
				continue
			case a.err:
				rec.Class("no agreement")
				if err == nil {
					fail("GetTargetInfo(%q) returned an answer without agreement", path)
				}
				continue
			}
			if err != nil {
				fail("GetTargetInfo(%q) returned %v, but %q agree", path, err, a.repos)
			}
			agreed++
			rec.Class(fmt.Sprintf("agreement of %d", len(a.repos)))
			if !oneOf(ti, path, a.desc) {
				fail("GetTargetInfo(%q) returned %s", path, must(ti.MarshalJSON()))
			}
			x, y := append([]string{}, from...), append([]string{}, a.repos...)
			sort.Strings(x)
			sort.Strings(y)
			if fmt.Sprint(x) != fmt.Sprint(y) {
				fail("GetTargetInfo(%q) names %q, %q agree", path, from, a.repos)
			}
			if !chance(t, "download", 70) {
				continue
			}
			downloads++
			// where the file goes
			local := func(r string) string {
				if shared {
					return filepath.Join(cfg.LocalTargetsDir, ref.QueryEscape(path))
				}
				return filepath.Join(cfg.LocalMetadataDir, ref.QueryEscape(r), "targets", ref.QueryEscape(path))
			}
			explicit := ""
			if chance(t, "explicit file", 25) {
				explicit = filepath.Join(dir, fmt.Sprintf("explicit%d", i))
				local = func(string) string { return explicit }
			}
			if chance(t, "nothing served any more", 12) {
				for _, r := range from {
					data[r][path] = nil
				}
			}
			if chance(t, "earlier file", 30) && !cfg.DisableLocalCache {
				b := bodies[intn(t, "earlier body", 0, len(bodies)-1)]
				if chance(t, "usual earlier body", 50) {
					b = bodies[common[path]]
				}
				f := local(from[intn(t, "of", 0, len(from)-1)])
				if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
					t.Fatalf("HARNESS-ERROR %v", err)
				}
				os.WriteFile(f, b, 0o644)
			}
			var given ref.M
			for _, d := range a.desc {
				if infoDiff(ti, path, d) == "" {
					given = d
				}
			}
			before := readTree(dir)
			wantFile, found := "", false
			var want []byte
			for _, r := range from {
				b, err := os.ReadFile(local(r))
				if err == nil && fits(given, b) && len(b) > 0 && !cfg.DisableLocalCache {
					wantFile, want, found = local(r), b, true
					break
				}
				// the client asks for a file named by one of the hashes of the description it was given
				if s := data[r][path]; s != nil && fits(given, s) && descs[r][path] != nil && shareAll(given, descs[r][path]) {
					wantFile, want, found = local(r), s, true
					break
				} else if s != nil && fits(given, s) {
					found, want, wantFile = true, nil, "?" // depends on the hash used in the request
					break
				}
			}
			if wantFile == "?" {
				continue
			}
			var file string
			var got []byte
			if p := guard(func() { file, got, err = c.DownloadTarget(from, ti, explicit, "") }); p != "" {
				fail("DownloadTarget(%q): %s", path, p)
			}
			hist = append(hist, fmt.Sprintf("download %q to %q: %s", path, file, errStr(err)))
			if (err == nil) != found {
				fail("DownloadTarget(%q) returned %v; available: %v", path, err, found)
			}
			after := readTree(dir)
			if err != nil {
				if len(got) > 0 {
					fail("DownloadTarget(%q) returned bytes together with %v", path, err)
				}
				if d := diffMaps(dropMeta(after), dropMeta(before)); d != "" {
					fail("a failed download of %q changed files: %s", path, d)
				}
				continue
			}
			if string(got) != string(want) {
				fail("DownloadTarget(%q) returned %q, want %q", path, got, want)
			}
			if cfg.DisableLocalCache {
				if d := diffMaps(after, before); d != "" {
					fail("a download without cache changed files: %s", d)
				}
				continue
			}
			if file != wantFile {
				fail("DownloadTarget(%q) returned file %q, want %q", path, file, wantFile)
			}
			b, err := os.ReadFile(file)
			if errors.Is(err, fs.ErrNotExist) || string(b) != string(want) {
				fail("after the download of %q file %q holds %q", path, file, b)
			}
			rel, _ := filepath.Rel(dir, file)
			delete(after, rel)
			delete(before, rel)
			if d := diffMaps(dropMeta(after), dropMeta(before)); d != "" {
				fail("a download of %q changed other files: %s", path, d)
			}
		}
		rec.ClassIf(!allWell, "a broken repository").ClassIf(downloads > 0, "downloads").ClassIf(len(ms) > 1, "several mappings").
			NonTrivial(agreed > 0 || n > 1).Sample(map[string]any{"map": string(mapFile), "history": hist[len(names)+2:], "broken": broken}).End()
	})
}

func hashList(d ref.M) []string {
	var out []string
	h := ref.Obj(d["hashes"])
	for _, k := range sortedKeys(h) {
		out = append(out, ref.Str(h[k]))
	}
	return out
}

// shareAll reports whether every hash of a is listed by b too.
func shareAll(a, b ref.M) bool {
	for k, v := range ref.Obj(a["hashes"]) {
		if ref.Obj(b["hashes"])[k] != v {
			return false
		}
	}
	return true
}

func oneOf(tf *metadata.TargetFiles, path string, ds []ref.M) bool {
	for _, d := range ds {
		if infoDiff(tf, path, d) == "" {
			return true
		}
	}
	return false
}

// dropMeta leaves out files of metadata.
func dropMeta(m map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	for k, v := range m {
		if !strings.HasSuffix(k, ".json") {
			o[k] = v
		}
	}
	return o
}

func toMM(m map[string]ref.M) ref.M {
	o := ref.M{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func toMM2(m map[string]map[string]ref.M) ref.M {
	o := ref.M{}
	for k, v := range m {
		o[k] = toMM(v)
	}
	return o
}
