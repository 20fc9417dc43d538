package props

import (
	"bytes"
	"crypto"
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// Isolation of instances: a plan is a fixed list of operations on one client,
// trusted set or metadata object. Plans are run alone, interleaved with others
// and concurrently with others, and must leave the same trace each time.

// hands holds the byte slices a plan handed in.
type hands struct {
	scribble bool
	given    []givenBytes
	kept     []keptValue
	bad      string
}

// keptValue is something the caller holds on to and nobody else may change.
type keptValue struct {
	what string
	was  string
	now  func() string
}

func (h *hands) keep(what string, now func() string) {
	h.kept = append(h.kept, keptValue{what, now(), now})
}

type givenBytes struct{ given, want []byte }

// give returns a private slice for handing in.
func (h *hands) give(b []byte) []byte {
	c := append(make([]byte, 0, len(b)+8), b...)
	h.given = append(h.given, givenBytes{c, b})
	return c
}

// settle checks what was handed in during one operation and overwrites it.
func (h *hands) settle() {
	for _, g := range h.given {
		if !bytes.Equal(g.given, g.want) && h.bad == "" {
			h.bad = fmt.Sprintf("a byte slice handed in was modified: %q became %q", g.want, g.given)
		}
		if h.scribble {
			for i := range g.given {
				g.given[i] = "}x\x00"[i%3]
			}
		}
	}
	h.given = nil
	for _, k := range h.kept {
		if s := k.now(); s != k.was && h.bad == "" {
			h.bad = fmt.Sprintf("%s was modified: %s became %s", k.what, k.was, s)
		}
	}
}

func targetText(f *metadata.TargetFiles) string {
	return fmt.Sprintf("%q %s", f.Path, must(json.Marshal(f)))
}

type script struct {
	kind string
	n    int
	desc []string
	// begin starts a run; the result performs operation i and returns what it
	// gave
	begin func(h *hands) (op func(i int) string, end func())
}

type planRun struct {
	p     *script
	h     *hands
	op    func(int) string
	end   func()
	trace []string
	next  int
}

func (p *script) start(scribble bool) *planRun {
	r := &planRun{p: p, h: &hands{scribble: scribble}}
	r.op, r.end = p.begin(r.h)
	return r
}

func (r *planRun) step() {
	var s string
	if p := guard(func() { s = r.op(r.next) }); p != "" {
		s = p
	}
	r.h.settle()
	r.trace = append(r.trace, s)
	r.next++
}

func kindOf(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused" // with several causes, which one is reported is free
}

// setText renders everything a trusted set holds.
func setText(s *trustedmetadata.TrustedMetadata) string {
	var out []string
	one := func(name string, m interface{ ToBytes(bool) ([]byte, error) }) {
		b, err := m.ToBytes(false)
		out = append(out, name+":"+string(b)+errStr(err))
	}
	if s.Root != nil {
		one("root", s.Root)
	}
	if s.Timestamp != nil {
		one("timestamp", s.Timestamp)
	}
	if s.Snapshot != nil {
		one("snapshot", s.Snapshot)
	}
	var names []string
	for n := range s.Targets {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		one("targets "+n, s.Targets[n])
	}
	return strings.Join(out, "\n")
}

func treeText(dir string) string {
	tree := readTree(dir)
	var out []string
	for _, k := range sortedKeys2(tree) {
		out = append(out, k+"="+string(ref.Hex(ref.SHA256(tree[k]))[:16]))
	}
	return strings.Join(out, " ")
}

func sortedKeys2[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// handFetcher serves a published state and keeps the slices it handed out.
type handFetcher struct {
	h     *hands
	state *ref.Repo
	log   []string
}

func (f *handFetcher) DownloadFile(url string, max int64, timeout time.Duration) ([]byte, error) {
	f.log = append(f.log, url)
	r := f.state.Serve(metaURL, targetURL, url)
	switch {
	case r.Status != 0 && r.Status != 200:
		return nil, metadata.ErrDownloadHTTP{StatusCode: r.Status, URL: url}
	case int64(len(r.Data)) > max:
		return nil, metadata.ErrDownloadLengthMismatch{Msg: url}
	}
	return f.h.give(r.Data), nil
}

// anyHash stands for the choice among a target's hashes, which is free.
var anyHash = regexp.MustCompile(`/[0-9a-f]{64,128}\.`)

// firstDiff shows where two texts part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-200)
	return fmt.Sprintf("%q\nalone it gave\n%q", a[from:min(len(a), i+200)], b[from:min(len(b), i+200)])
}

type clientOp struct {
	kind string
	path string
	to   int // state
}

// clientPlan draws a history of one client against one repository.
func clientPlan(t *rapid.T, r *ref.Repo) *script {
	cfg := baseConfig()
	cfg.DisableCache = chance(t, "no cache", 15)
	cfg.Prefix = chance(t, "prefix", 80)
	// limits of all kinds, nought included, are the caller's to choose
	tight := chance(t, "odd limits", 25)
	if tight {
		cfg.MaxRoot = pick[int64](t, "rotations", 0, 1, cfg.MaxRoot)
		cfg.MaxDelegations = pick(t, "delegations", 0, 1, cfg.MaxDelegations)
		cfg.RootMax, cfg.TSMax = pick(t, "root limit", 0, -1, cfg.RootMax, cfg.RootMax), pick(t, "timestamp limit", cfg.TSMax, cfg.TSMax, cfg.TSMax, 0)
		cfg.SNMax, cfg.TGMax = pick(t, "snapshot limit", cfg.SNMax, cfg.SNMax, cfg.SNMax, 0), pick(t, "targets limit", cfg.TGMax, cfg.TGMax, cfg.TGMax, 0)
	}
	metaName, filesName := pick(t, "metadata directory", "meta", "meta", "./meta", "meta/", "x/../meta"), pick(t, "targets directory", "files", "files", "files//", "./files")
	if filesName == "files" && chance(t, "no targets address", 10) {
		cfg.TargetURL = ""
	}
	root := r.Roots[r.RootV]
	states := []*ref.Repo{r.Clone()}
	for i, n := 0, intn(t, "publications", 0, 3); i < n; i++ {
		evolve(t, r)
		states = append(states, r.Clone())
	}
	ops := []clientOp{{kind: "new"}}
	for at := range states {
		ops = append(ops, clientOp{kind: "state", to: at})
		if at > 0 {
			ops = append(ops, clientOp{kind: "new"})
		}
		if chance(t, "refresh", 80) {
			ops = append(ops, clientOp{kind: "refresh"})
		}
		for _, p := range lookups(t, states[at], intn(t, "lookups", 0, 3)) {
			if p == "" || p == "." || p == ".." {
				continue
			}
			ops = append(ops, clientOp{kind: "info", path: p})
			if chance(t, "cached", 40) {
				ops = append(ops, clientOp{kind: "cached", path: p})
			}
			if chance(t, "download", 60) {
				ops = append(ops, clientOp{kind: "download", path: p})
			}
		}
		if chance(t, "own description", 25) {
			ops = append(ops, clientOp{kind: "own", path: pick(t, "own path", "a", "/abs/x", "a//b", "a/", "./a", "x/../a", "é ü", "%41", "A"), to: intn(t, "own kind", 0, 2)})
		}
		if chance(t, "again", 20) {
			ops = append(ops, clientOp{kind: "refresh"})
		}
	}
	pl := &script{kind: "client", n: len(ops)}
	for _, o := range ops {
		pl.desc = append(pl.desc, strings.TrimSpace(fmt.Sprint(o.kind, " ", o.path)))
	}
	pl.begin = func(h *hands) (func(int) string, func()) {
		dir := newDir()
		f := &handFetcher{h: h, state: states[0]}
		var up *updater.Updater
		var uc *config.UpdaterConfig
		var was config.UpdaterConfig
		infos := map[string]*metadata.TargetFiles{}
		at := 0
		return func(i int) string {
			o := ops[i]
			f.log = nil
			var out string
			switch o.kind {
			case "state":
				f.state = states[o.to]
				at = o.to
			case "own":
				// a description of the caller's own
				if up != nil {
					ti, err := metadata.TargetFile().FromBytes(o.path, []byte(o.path))
					if err != nil {
						return err.Error()
					}
					if o.to == 1 {
						ti.Custom = &[]json.RawMessage{json.RawMessage(`{"b":1, "a":[]}`)}[0]
					}
					h.keep("the caller's target description", func() string { return targetText(ti) })
					file := ""
					if o.to > 1 {
						file = filepath.Join(dir, "own file")
					}
					_, _, err1 := up.DownloadTarget(ti, file, "")
					_, _, err2 := up.FindCachedTarget(ti, file)
					out = kindOf(err1) + kindOf(err2)
				}
			case "new":
				uc = sutConfig(clientOpt{cfg: cfg, root: h.give(root), metaDir: dir + "/" + metaName, targetsDir: dir + "/" + filesName})
				uc.Fetcher = f
				was = *uc
				was.LocalTrustedRoot = nil
				u, err := updater.New(uc)
				out = kindOf(err)
				if err != nil {
					u = nil
				}
				up = u
				h.kept = nil
				infos = map[string]*metadata.TargetFiles{}
			case "refresh":
				if up != nil {
					first := up.GetTrustedMetadataSet().Timestamp == nil
					err := up.Refresh()
					lastErr := errStr(err)
					out = kindOf(err)
					if out != "ok" && first && !tight && h.bad == "" {
						h.bad = "a refresh against an honest repository is refused: " + lastErr
					}
				}
			case "info":
				if up != nil {
					ti, err := up.GetTargetInfo(o.path)
					out = kindOf(err)
					if want, _ := publishedInfo(states[at], o.path, cfg.MaxDelegations); !tight && h.bad == "" && (want == nil) != (err != nil) {
						h.bad = fmt.Sprintf("look-up of %q: %v, published: %v", o.path, err, want != nil)
					}
					if err == nil {
						h.keep("a target description", func() string { return targetText(ti) })
						infos[o.path] = ti
						out += string(must(json.Marshal(ti)))
					}
				}
			case "cached":
				if up != nil && infos[o.path] != nil {
					p, b, err := up.FindCachedTarget(infos[o.path], "")
					out = fmt.Sprintf("%q %q %s", strings.TrimPrefix(p, dir), b, kindOf(err))
				}
			case "download":
				if up != nil && infos[o.path] != nil {
					p, b, err := up.DownloadTarget(infos[o.path], "", "")
					out = fmt.Sprintf("%q %q %s", strings.TrimPrefix(p, dir), b, kindOf(err))
				}
			}
			if up != nil {
				s := up.GetTrustedMetadataSet()
				out += "\n" + setText(&s)
				now := *uc
				now.LocalTrustedRoot = nil
				if !reflect.DeepEqual(now, was) && h.bad == "" {
					h.bad = fmt.Sprintf("the configuration was modified: %+v became %+v", was, now)
				}
			}
			return out + "\nrequests " + anyHash.ReplaceAllString(strings.Join(f.log, " "), "/HASH.") + "\nfiles " + treeText(dir)
		}, func() { rmDir(dir) }
	}
	return pl
}

// setPlan draws a history of update calls on one trusted set.
func setPlan(t *rapid.T, w *pool) *script {
	r, cs := ref.NewTrusted(w.init.raw, w.now)
	var steps []step
	var expect []bool
	initOK := len(cs) == 0
	for i, n := 0, intn(t, "steps", 1, 8); i < n && len(cs) == 0; i++ {
		var ok, all []step
		for _, d := range w.roots {
			all = append(all, step{kind: "root", doc: d})
		}
		for _, d := range w.ts {
			all = append(all, step{kind: "timestamp", doc: d})
		}
		for _, d := range w.sn {
			all = append(all, step{kind: "snapshot", doc: d, isTrusted: chance(t, "trusted", 20)})
		}
		for _, d := range w.tg {
			for _, pr := range delegPairs {
				if pr[0] == d.role {
					all = append(all, step{kind: "targets", role: pr[0], parent: pr[1], doc: d})
				}
			}
		}
		for _, s := range all {
			if cl := r.Clone(); len(applyRef(cl, s)) == 0 {
				ok = append(ok, s)
			}
		}
		if len(ok) > 0 && chance(t, "accepted", 80) {
			all = ok
		}
		if len(all) == 0 {
			break
		}
		s := all[intn(t, "step", 0, len(all)-1)]
		expect = append(expect, len(applyRef(r, s)) == 0)
		steps = append(steps, s)
	}
	pl := &script{kind: "trusted set", n: len(steps) + 1}
	for _, s := range steps {
		pl.desc = append(pl.desc, s.String())
	}
	pl.begin = func(h *hands) (func(int) string, func()) {
		var tm *trustedmetadata.TrustedMetadata
		return func(i int) string {
			if i == 0 {
				m, err := trustedmetadata.New(h.give(w.init.raw))
				if (err == nil) != initOK && h.bad == "" {
					h.bad = fmt.Sprintf("initial root: %v", err)
				}
				if err != nil {
					return kindOf(err)
				}
				tm = m
				tm.RefTime = w.now
				return setText(tm)
			}
			if tm == nil {
				return "none"
			}
			s := steps[i-1]
			raw := h.give(s.doc.raw)
			var err error
			switch {
			case s.kind == "root":
				_, err = tm.UpdateRoot(raw)
			case s.kind == "timestamp":
				_, err = tm.UpdateTimestamp(raw)
			case s.kind == "snapshot":
				_, err = tm.UpdateSnapshot(raw, s.isTrusted)
			case s.role == "targets" && s.parent == "root":
				_, err = tm.UpdateTargets(raw)
			default:
				_, err = tm.UpdateDelegatedTargets(raw, s.role, s.parent)
			}
			if (err == nil) != expect[i-1] && h.bad == "" {
				h.bad = fmt.Sprintf("%s: %v", s, err)
			}
			return kindOf(err) + "\n" + setText(tm)
		}, func() {}
	}
	return pl
}

type objOp struct {
	kind string
	key  *ref.Key
	role string
	b    []byte
	n    int
}

// objPlan draws a history of one metadata object. Key objects are shared among
// plans, as a program keeping its keys would.
func objPlan(t *rapid.T, docs map[string][][]byte, keys map[string]*metadata.Key) *script {
	typ := pick(t, "type", "root", "targets", "targets", "timestamp", "snapshot")
	init := docs[typ][intn(t, "document", 0, len(docs[typ])-1)]
	made := chance(t, "made", 25)
	role := func() string {
		if typ == "root" {
			return pick(t, "role", "root", "timestamp", "snapshot", "targets")
		}
		return pick(t, "role", "a", "b", "c")
	}
	var ops []objOp
	for i, n := 0, intn(t, "operations", 1, 7); i < n; i++ {
		o := objOp{kind: pick(t, "operation", "sign", "sign", "add", "add", "revoke", "verify", "verify", "clear", "parse", "version", "lengths", "target")}
		o.key, o.role, o.n = ref.Ed(intn(t, "key", 0, 5)), role(), intn(t, "n", 0, 100)
		switch o.kind {
		case "parse":
			o.b = docs[typ][intn(t, "document", 0, len(docs[typ])-1)]
		case "lengths", "target":
			o.b = content(o.role, o.n)
		case "verify":
			ks := docs["targets"]
			if typ == "root" {
				vt := pick(t, "verified", "root", "targets", "timestamp", "snapshot")
				o.role, ks = vt, docs[vt]
			}
			o.b = ks[intn(t, "document", 0, len(ks)-1)]
		}
		ops = append(ops, o)
	}
	pl := &script{kind: "object", n: len(ops) + 1, desc: []string{typ}}
	for _, o := range ops {
		pl.desc = append(pl.desc, o.kind+" "+o.role)
	}
	exp := time.Date(2040, 1, 2, 3, 4, 5, 0, time.UTC)
	pl.begin = func(h *hands) (func(int) string, func()) {
		var d doc
		files := metadata.TargetFile()
		for _, id := range sortedKeys2(keys) {
			k := keys[id]
			h.keep("a key", func() string { return string(must(json.Marshal(k))) })
		}
		return func(i int) string {
			if i == 0 {
				d = newDoc(typ)
				if made {
					d = madeDoc(typ, exp)
				} else if err := d.FromBytes(h.give(init)); err != nil {
					return kindOf(err)
				}
				return string(must(d.ToBytes(false)))
			}
			o := ops[i-1]
			var err error
			out := ""
			switch o.kind {
			case "sign":
				old := d.Signatures()
				h.keep("a list of signatures taken before signing", func() string { return fmt.Sprint(old) })
				_, err = d.Sign(must(signature.LoadSigner(o.key.Priv, 0)))
			case "add":
				switch m := d.Any().(type) {
				case *metadata.Metadata[metadata.RootType]:
					err = m.Signed.AddKey(keys[o.key.ID()], o.role)
				case *metadata.Metadata[metadata.TargetsType]:
					err = m.Signed.AddKey(keys[o.key.ID()], o.role)
				}
			case "revoke":
				switch m := d.Any().(type) {
				case *metadata.Metadata[metadata.RootType]:
					err = m.Signed.RevokeKey(o.key.ID(), o.role)
				case *metadata.Metadata[metadata.TargetsType]:
					err = m.Signed.RevokeKey(o.key.ID(), o.role)
				}
			case "verify":
				vt := "targets"
				if typ == "root" {
					vt = o.role
				}
				x := newDoc(vt)
				if err = x.FromBytes(h.give(o.b)); err == nil {
					err = d.VerifyDelegate(o.role, x.Any())
					// by the text alone
					del := ref.Obj(must(ref.Decode(must(d.ToBytes(false)))))
					if typ == "root" || typ == "targets" {
						rd := must(ref.ParseDoc(o.b, vt))
						dg := ref.FindDelegation(ref.Obj(del["signed"]), o.role)
						want := dg.Named && int64(dg.ValidSigners(rd.Signed, rd.Sigs)) >= dg.Threshold
						if want != (err == nil) && !(want && dg.MissingKey) && h.bad == "" {
							h.bad = fmt.Sprintf("verification of %s for %q by %s: %v, want %v", o.b, o.role, must(d.ToBytes(false)), err, want)
						}
					}
				}
			case "clear":
				old := d.Signatures()
				h.keep("a list of signatures taken before they were cleared", func() string { return fmt.Sprint(old) })
				d.ClearSignatures()
			case "parse":
				old := d.Signatures()
				h.keep("a list of signatures taken before parsing another document", func() string { return fmt.Sprint(old) })
				err = d.FromBytes(h.give(o.b))
			case "version":
				switch m := d.Any().(type) {
				case *metadata.Metadata[metadata.RootType]:
					m.Signed.Version++
				case *metadata.Metadata[metadata.TargetsType]:
					m.Signed.Version++
				case *metadata.Metadata[metadata.TimestampType]:
					if x := m.Signed.Meta["snapshot.json"]; x != nil {
						x.Version++
					}
				case *metadata.Metadata[metadata.SnapshotType]:
					if x := m.Signed.Meta["targets.json"]; x != nil {
						x.Version++
					}
				}
			case "lengths":
				m := metadata.MetaFile(int64(o.n))
				m.Length = int64(len(o.b))
				m.Hashes = metadata.Hashes{"sha256": ref.SHA256(o.b)}
				err = m.VerifyLengthHashes(h.give(o.b))
			case "target":
				var f *metadata.TargetFiles
				algs := append(make([]string, 0, 4), "sha512", "sha256", "sha512")[:2+o.n%2]
				h.keep("a list of algorithms", func() string { return fmt.Sprint(algs[:cap(algs)]) })
				f, err = files.FromBytes(o.role, h.give(o.b), algs...)
				if err == nil {
					out = string(must(json.Marshal(f)))
				}
			}
			b, berr := d.ToBytes(o.n%2 == 0)
			return out + kindOf(err) + " " + string(b) + errStr(berr)
		}, func() {}
	}
	return pl
}

func TestC24Isolation(t *testing.T) {
	run(t, 100, func(t *rapid.T) {
		defer countLogs(100000)()
		// plans over sibling data: same addresses, names and often versions
		var plans []*script
		var base *ref.Repo
		var docs map[string][][]byte
		var pools []*pool
		keys := map[string]*metadata.Key{}
		for i := 0; i < 6; i++ {
			keys[ref.Ed(i).ID()] = sutKey(ref.Ed(i))
		}
		for i, n := 0, intn(t, "instances", 2, 4); i < n; i++ {
			switch pick(t, "kind", "client", "client", "set", "object") {
			case "client":
				r := base
				if r == nil || chance(t, "unrelated", 30) {
					r = genRepo(t)
				}
				if base == nil {
					base = r.Clone()
				}
				plans = append(plans, clientPlan(t, r.Clone()))
			case "set":
				if len(pools) == 0 || chance(t, "other pool", 40) {
					p := profile{name: "C24", roots: 3, sig: 12, exp: 12, ver: 12, rec: 10, record: 50, entries: 10, rotate: 30}
					pools = append(pools, p.generate(t))
				}
				plans = append(plans, setPlan(t, pools[intn(t, "pool", 0, len(pools)-1)]))
			case "object":
				if docs == nil {
					docs = map[string][][]byte{}
					naming := [2]int{intn(t, "naming", 0, 5), intn(t, "naming", 0, 5)}
					for _, typ := range docTypes {
						for j := range naming {
							docs[typ] = append(docs[typ], simpleDoc(t, typ, naming[j]))
						}
					}
				}
				plans = append(plans, objPlan(t, docs, keys))
			}
		}
		rec := ev.New("C24Isolation").Class(fmt.Sprintf("%d instances", len(plans)))
		var all []string
		total := 0
		for i, p := range plans {
			all = append(all, fmt.Sprintf("%d %s: %s", i, p.kind, strings.Join(p.desc, ", ")))
			rec.Class(p.kind)
			total += p.n
		}
		// alone
		var alone [][]string
		for _, p := range plans {
			r := p.start(false)
			for r.next < p.n {
				r.step()
			}
			r.end()
			alone = append(alone, r.trace)
			rec.Add([]byte(strings.Join(r.trace, "\n")))
			if r.h.bad != "" {
				t.Fatalf("%s: %s", p.kind, r.h.bad)
			}
		}
		check := func(how string, runs []*planRun) {
			for i, r := range runs {
				if r.h.bad != "" {
					t.Fatalf("%s: instance %d: %s\n%s", how, i, r.h.bad, strings.Join(all, "\n"))
				}
				for j := range alone[i] {
					if r.trace[j] != alone[i][j] {
						t.Fatalf("%s: operation %d of instance %d gave\n%s\n%s", how, j, i, firstDiff(r.trace[j], alone[i][j]), strings.Join(all, "\n"))
					}
				}
			}
		}
		begin := func(scribble bool) (runs []*planRun) {
			for _, p := range plans {
				runs = append(runs, p.start(scribble))
			}
			return
		}
		end := func(runs []*planRun) {
			for _, r := range runs {
				r.end()
			}
		}
		// interleaved
		runs := begin(chance(t, "overwrite", 50))
		var order []int
		for left := total; left > 0; left-- {
			i := intn(t, "next", 0, len(runs)-1)
			for runs[i].next >= runs[i].p.n {
				i = (i + 1) % len(runs)
			}
			order = append(order, i)
			runs[i].step()
		}
		end(runs)
		check(fmt.Sprintf("interleaved as %v (overwriting the caller's bytes: %v)", order, runs[0].h.scribble), runs)
		// alone, overwriting what was handed in
		runs = begin(true)
		for _, r := range runs {
			for r.next < r.p.n {
				r.step()
			}
		}
		end(runs)
		check("one after the other, overwriting the caller's bytes", runs)
		// concurrently; a counting logger would order the operations
		metadata.SetLogger(metadata.DiscardLogger{})
		runs = begin(chance(t, "overwrite", 50))
		var wg sync.WaitGroup
		for _, r := range runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r.next < r.p.n {
					r.step()
				}
			}()
		}
		wg.Wait()
		end(runs)
		check("concurrently", runs)
		rec.NonTrivial(len(plans) > 1 && total > 4).Sample(map[string]any{"instances": all, "order": order}).End()
	})
}

// TestC24Overlap: several goroutines repeat one operation each on objects of
// their own; every repetition gives what the operation gives alone.
func TestC24Overlap(t *testing.T) {
	run(t, 60, func(t *rapid.T) {
		naming := intn(t, "naming", 0, 5)
		var names []string
		var ops []func() string
		for i, n := 0, intn(t, "goroutines", 2, 5); i < n; i++ {
			typ := pick(t, "type", docTypes...)
			b := simpleDoc(t, typ, naming)
			k := pick(t, "key", ref.Ed(0), ref.Ed(1), ref.Ed(2), ref.RSA(0), ref.RSA(1), ref.NewECDSA(i))
			data := content(fmt.Sprint("data", i), intn(t, "data", 0, 9))
			path := fmt.Sprintf("p%d/%d", i, intn(t, "path", 0, 99))
			kind := pick(t, "operation", "parse", "sign", "verify", "convert", "describe", "cover", "trust", "keys", "error")
			names = append(names, kind+" "+typ)
			// objects of this goroutine only
			d := newDoc(typ)
			if err := d.FromBytes(b); err != nil {
				t.Fatal(err)
			}
			delegator := metadata.Root(time.Unix(1<<32, 0).UTC())
			if err := delegator.Signed.AddKey(sutKey(k), typ); err != nil {
				t.Fatal(err)
			}
			succ := metadata.SuccinctRoles{BitLength: 1 + i, NamePrefix: path}
			var op func() string
			switch kind {
			case "parse":
				op = func() string {
					x := newDoc(typ)
					err := x.FromBytes(b)
					return string(must(x.ToBytes(false))) + errStr(err)
				}
			case "sign":
				op = func() string {
					d.ClearSignatures()
					_, err := d.Sign(must(signature.LoadSigner(k.Priv, crypto.SHA256)))
					return errStr(err) + errStr(delegator.VerifyDelegate(typ, d.Any()))
				}
			case "verify":
				v := newDoc(typ)
				if err := v.FromBytes(ref.SignAll(must(ref.ParseDoc(b, typ)).Signed, k)); err != nil {
					t.Fatal(err)
				}
				op = func() string {
					return errStr(delegator.VerifyDelegate(typ, v.Any())) + kindOf(delegator.VerifyDelegate(typ, d.Any()))
				}
			case "convert":
				op = func() string {
					x := must(metadata.KeyFromPublicKey(k.Priv.Public()))
					p, err := x.ToPublicKey()
					return fmt.Sprint(x.ID(), samePublic(p, k.Priv.Public()), err)
				}
			case "describe":
				op = func() string {
					x, err := metadata.TargetFile().FromBytes(path, data, "sha512", "sha256")
					return fmt.Sprint(string(must(x.MarshalJSON())), err, x.VerifyLengthHashes(data), kindOf(x.VerifyLengthHashes(append(data[:len(data):len(data)], 'x'))))
				}
			case "cover":
				op = func() string {
					return fmt.Sprint(succ.GetRolesForTarget(path), succ.GetRoles(), succ.IsDelegatedRole(path+"-0"))
				}
			case "trust":
				rt := simpleDocOf(t, naming)
				op = func() string {
					s, err := trustedmetadata.New(rt)
					if err != nil {
						return kindOf(err)
					}
					_, err = s.UpdateTimestamp(b)
					return string(must(s.Root.ToBytes(false))) + kindOf(err)
				}
			case "keys":
				op = func() string {
					r := metadata.Root(time.Unix(1<<32, 0).UTC())
					err := r.Signed.AddKey(must(metadata.KeyFromPublicKey(k.Priv.Public())), typ)
					out := string(must(r.ToBytes(true)))
					return out + errStr(err) + errStr(r.Signed.RevokeKey(k.ID(), typ)) + string(must(r.ToBytes(false)))
				}
			case "error":
				op = func() string {
					_, err := metadata.Targets().FromBytes(b)
					return errStr(err) + errStr(d.VerifyDelegate("nobody", d.Any()))
				}
			}
			ops = append(ops, op)
		}
		var alone []string
		for _, op := range ops {
			alone = append(alone, op())
			if again := op(); again != alone[len(alone)-1] {
				t.Fatalf("%s: repeated alone it gives\n%s\ninstead of\n%s", names[len(alone)-1], again, alone[len(alone)-1])
			}
		}
		wrong := make([]string, len(ops))
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for i, op := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						wrong[i] = fmt.Sprint("panic: ", r)
					}
				}()
				<-begin
				for j := 0; j < 40 && wrong[i] == ""; j++ {
					if got := op(); got != alone[i] {
						wrong[i] = got
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		for i, w := range wrong {
			if w != "" {
				t.Fatalf("%s at the same time as %v gives\n%s\ninstead of\n%s", names[i], names, w, alone[i])
			}
		}
		rec := ev.New("C24Overlap").Add(fmt.Sprint(names), []byte(strings.Join(alone, "\n"))).NonTrivial(true)
		for _, n := range names {
			rec.Class("overlapping " + strings.Fields(n)[0])
		}
		rec.Sample(names).End()
	})
}

// simpleDocOf draws a root document that its own keys have signed.
func simpleDocOf(t *rapid.T, naming int) []byte {
	k := ref.Ed(naming)
	one := ref.RoleSpec{Keys: []*ref.Key{k}, Threshold: 1}
	return ref.SignAll(ref.Root(int64(intn(t, "root version", 1, 9)), ref.FarFuture, chance(t, "consistent", 50), map[string]ref.RoleSpec{"root": one, "timestamp": one, "snapshot": one, "targets": one}), k)
}

// TestC24Multirepo: multi-repository clients made from one configuration, whose
// bytes are overwritten afterwards, answer as if each were alone and leave the
// configuration as it was.
func TestC24Multirepo(t *testing.T) {
	run(t, 30, func(t *rapid.T) {
		dir := newDir()
		defer rmDir(dir)
		n := intn(t, "repositories", 1, 3)
		names := []string{"one", "two", "three"}[:n]
		paths := []string{"f", "d/g", "h"}
		var repos []*ref.Repo
		urls, roots := ref.M{}, map[string][]byte{}
		base, done := theHost().open(func(rest string) ref.Resp {
			for i, r := range repos {
				if p := fmt.Sprintf("%d/", i); strings.HasPrefix(rest, p) {
					return r.Serve("http://x/m", "http://x/m/targets", "http://x/m/"+strings.TrimPrefix(rest, p))
				}
			}
			return ref.Resp{Status: 404}
		})
		defer done()
		for i, name := range names {
			r := plainRepo(chance(t, "consistent", 50))
			for _, p := range paths {
				if chance(t, p, 75) {
					r.Roles["targets"].Files[p] = []byte("content of " + p + pick(t, "differing", "", "", "!"))
				}
			}
			r.Roles["targets"].Dirty = true
			r.Publish()
			repos = append(repos, r)
			urls[name] = []any{fmt.Sprintf("%s/%d%s", base, i, pick(t, "slash", "", "/"))}
			roots[name] = r.Roots[1]
		}
		var maps []any
		for i, k := 0, intn(t, "mappings", 1, 3); i < k; i++ {
			l := append([]string{}, names...)
			if chance(t, "backwards", 50) {
				slices.Reverse(l)
			}
			maps = append(maps, ref.M{"paths": pick(t, "paths", []any{"*", "*/*"}, []any{"h", "f"}, []any{"d/*", "*"}), "repositories": l, "threshold": intn(t, "threshold", 1, n), "terminating": chance(t, "terminating", 30)})
		}
		m := ref.Encode(ref.M{"repositories": urls, "mapping": maps})
		asked := []string{}
		for i, k := 0, intn(t, "look-ups", 1, 4); i < k; i++ {
			asked = append(asked, pick(t, "path", "f", "d/g", "h", "none"))
		}
		h := &hands{}
		spare := chance(t, "spare root", 40)
		had := map[string][]byte{}
		for n := range roots {
			had[n] = nil
		}
		if spare {
			had["spare"] = nil
		}
		config := func() *multirepo.MultiRepoConfig {
			given := map[string][]byte{}
			for n, b := range roots {
				given[n] = h.give(b)
			}
			if spare {
				// a caller may know more repositories than the map names
				given["spare"] = h.give([]byte("spare root"))
			}
			c, err := multirepo.NewConfig(h.give(m), given)
			if err != nil {
				t.Fatalf("NewConfig: %v\n%s", err, m)
			}
			if !slices.Equal(sortedNames(given), sortedNames(had)) {
				t.Fatalf("NewConfig changed the caller's roots: %q are left of %q", sortedNames(given), sortedNames(had))
			}
			return c
		}
		// the client to be compared with has everything to itself
		made := 0
		client := func(c *multirepo.MultiRepoConfig) func(string) string {
			made++
			own := *c
			own.LocalMetadataDir, own.LocalTargetsDir = filepath.Join(dir, fmt.Sprint("meta", made)), filepath.Join(dir, fmt.Sprint("files", made))
			was := fmt.Sprintf("%s %+v %q", must(json.Marshal(own.RepoMap)), own.TrustedRoots, own.LocalMetadataDir+own.LocalTargetsDir)
			cl, err := multirepo.New(&own)
			if err != nil {
				t.Fatalf("New: %v\n%s", err, m)
			}
			return func(p string) string {
				ti, from, err := cl.GetTargetInfo(p)
				out := kindOf(err)
				if err == nil {
					was := targetText(ti)
					list := append([]string{}, from...)
					_, b, err := cl.DownloadTarget(from, ti, "", "")
					if targetText(ti) != was || !slices.Equal(list, from) {
						return fmt.Sprintf("the description %s of %q was modified: %s of %q", was, list, targetText(ti), from)
					}
					slices.Sort(list)
					out += fmt.Sprintf(" %s %q %q %s", was, list, b, kindOf(err))
				}
				if now := fmt.Sprintf("%s %+v %q", must(json.Marshal(own.RepoMap)), own.TrustedRoots, own.LocalMetadataDir+own.LocalTargetsDir); now != was {
					return fmt.Sprintf("the configuration %s was modified: %s", was, now)
				}
				return out
			}
		}
		var want []string
		alone := client(config())
		for _, p := range asked {
			want = append(want, alone(p))
		}
		h.settle()
		shared := config()
		a, b := client(shared), client(shared)
		// the trusted roots stay part of the configuration, the map file does not
		for _, g := range h.given {
			if bytes.Equal(g.want, m) {
				for i := range g.given {
					g.given[i] = 'x'
				}
			}
		}
		h.given = nil
		var wg sync.WaitGroup
		got := [2][]string{}
		for i, c := range []func(string) string{a, b} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range asked {
					got[i] = append(got[i], c(p))
				}
			}()
		}
		wg.Wait()
		for _, g := range got {
			if fmt.Sprint(g) != fmt.Sprint(want) {
				t.Fatalf("clients sharing a map gave\n%q\nalone\n%q\nmap file %s, looked up %q", g, want, m, asked)
			}
		}
		if h.bad != "" {
			t.Fatal(h.bad)
		}
		ev.New("C24Multirepo").Add(string(m), asked, fmt.Sprint(want)).NonTrivial(true).Sample(map[string]any{"map file": string(m), "looked up": asked}).End()
	})
}

// TestC24Names: delegators that give the same names to different keys do not
// influence each other's verifications, in any order.
func TestC24Names(t *testing.T) {
	run(t, 300, func(t *rapid.T) {
		type party struct {
			kind   string
			role   string
			doc    any
			signed ref.M
			raw    []byte
			keys   []*ref.Key
		}
		names := []string{"key-0", "key-1", "key-2"}[:intn(t, "names", 1, 3)]
		var parties []party
		for i, n := 0, intn(t, "delegators", 2, 4); i < n; i++ {
			p := party{kind: pick(t, "kind", "root", "targets"), role: "targets"}
			for _, name := range names {
				k := ref.Ed(intn(t, "key", 0, 9))
				if chance(t, "other kind", 25) {
					k = ref.ECDSA(intn(t, "ecdsa", 0, 5))
				}
				p.keys = append(p.keys, k.Alias(name))
			}
			spec := ref.RoleSpec{Keys: p.keys, Threshold: intn(t, "threshold", 1, len(p.keys))}
			if p.kind == "root" {
				other := ref.RoleSpec{Keys: []*ref.Key{ref.Ed(11)}, Threshold: 1}
				p.signed = ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{"root": other, "timestamp": other, "snapshot": other, "targets": spec})
			} else {
				o := spec.Obj()
				p.role = "a"
				o["name"], o["terminating"], o["paths"] = p.role, false, []any{"*"}
				p.signed = ref.Targets(1, ref.FarFuture, ref.M{}, ref.M{"keys": ref.KeysObj(p.keys), "roles": []any{o}})
			}
			p.raw = ref.SignAll(p.signed)
			p.signed = ref.Obj(ref.Obj(must(ref.Decode(p.raw)))["signed"])
			p.doc = must(parseAny(p.raw, p.kind))
			parties = append(parties, p)
		}
		type sealed struct {
			raw []byte
			doc any
		}
		var docs []sealed
		for i := range parties {
			signed := sampleSigned(t, "targets")
			for j, n := 0, intn(t, "documents", 1, 2); j < n; j++ {
				raw := ref.SignAll(signed, parties[i].keys[:intn(t, "signers", 1, len(names))]...)
				docs = append(docs, sealed{raw, must(parseAny(raw, "targets"))})
			}
		}
		verify := func(i, j int) string {
			rd := must(ref.ParseDoc(docs[j].raw, "targets"))
			d := ref.FindDelegation(parties[i].signed, parties[i].role)
			want := d.Named && int64(d.ValidSigners(rd.Signed, rd.Sigs)) >= d.Threshold
			if err := verifyDelegate(parties[i].doc, parties[i].role, docs[j].doc); (err == nil) != want {
				return fmt.Sprintf("delegator %s\nverifies %s: %v, want %v", parties[i].raw, docs[j].raw, err, want)
			}
			return ""
		}
		var order [][2]int
		for i, n := 0, intn(t, "verifications", 2, 12); i < n; i++ {
			order = append(order, [2]int{intn(t, "delegator", 0, len(parties)-1), intn(t, "document", 0, len(docs)-1)})
		}
		for n, o := range order {
			if bad := verify(o[0], o[1]); bad != "" {
				t.Fatalf("verification %d of %v (delegator, document): %s", n, order, bad)
			}
		}
		rec := ev.New("C24Names").Add(order)
		for _, p := range parties {
			rec.Add(p.raw)
		}
		if chance(t, "at the same time", 20) {
			var wg sync.WaitGroup
			bad := make([]string, len(parties))
			for i := range parties {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < 4 && bad[i] == ""; n++ {
						for j := range docs {
							if b := verify(i, j); b != "" {
								bad[i] = b
							}
						}
					}
				}()
			}
			wg.Wait()
			for _, b := range bad {
				if b != "" {
					t.Fatalf("while other delegators verify: %s", b)
				}
			}
			rec.Class("at the same time")
		}
		rec.Class(fmt.Sprintf("%d delegators", len(parties))).NonTrivial(true).Sample(order).End()
	})
}

// simpleDoc draws a well-formed signed document whose roles are held by pool
// keys.
func simpleDoc(t *rapid.T, typ string, naming int) []byte {
	// repositories may name keys as they like; two of them then use the same
	// name for different keys
	named := chance(t, "named keys", 50)
	spec := func(label string) ref.RoleSpec {
		a := intn(t, label, 0, 5)
		if named {
			a = len(label) + naming
		}
		ks := []*ref.Key{ref.Ed(a % 6), ref.Ed((a + 1) % 6)}[:intn(t, label+" n", 1, 2)]
		if named {
			for i := range ks {
				ks[i] = ks[i].Alias(fmt.Sprintf("%s %d", label, i))
			}
		}
		return ref.RoleSpec{Keys: ks, Threshold: intn(t, label+" threshold", 1, len(ks))}
	}
	v := int64(intn(t, "version", 1, 5))
	var s ref.M
	switch typ {
	case "root":
		roles := map[string]ref.RoleSpec{}
		for _, r := range docTypes {
			roles[r] = spec("key of " + r)
		}
		s = ref.Root(v, ref.FarFuture, chance(t, "consistent", 50), roles)
	case "timestamp":
		s = ref.Timestamp(v, ref.FarFuture, ref.M{"version": v, "x": []any{"y", ref.M{}}})
	case "snapshot":
		s = ref.Snapshot(v, ref.FarFuture, ref.M{"targets.json": ref.M{"version": v}, "a.json": ref.MetaFile(v, []byte("x"), true, "sha256")})
	case "targets":
		var roles []any
		var ks [][]*ref.Key
		for _, r := range []string{"a", "b", "c"} {
			sp := spec("key of " + r)
			o := sp.Obj()
			o["name"], o["terminating"], o["paths"] = r, false, []any{"*", r + "/*"}
			roles = append(roles, o)
			ks = append(ks, sp.Keys)
		}
		s = ref.Targets(v, ref.FarFuture, ref.M{"f": ref.TargetFile(content("f", int(v)), "sha256")}, ref.M{"keys": ref.KeysObj(ks...), "roles": roles})
	}
	if chance(t, "extra", 50) {
		s["extra"] = ref.M{"list": []any{1, "two", nil}, "n": v}
	}
	s1, s2 := ref.Ed(intn(t, "signer", 0, 5)), ref.Ed(intn(t, "signer", 0, 5))
	if chance(t, "named signers", 50) {
		label := "key of " + typ
		if typ == "targets" && chance(t, "delegated", 60) {
			label = "key of " + pick(t, "delegated role", "a", "b", "c")
		}
		if chance(t, "right keys", 80) {
			s1, s2 = ref.Ed((len(label)+naming)%6), ref.Ed((len(label)+naming+1)%6)
		}
		s1, s2 = s1.Alias(label+" 0"), s2.Alias(label+" 1")
	}
	return ref.SignAll(s, s1, s2)
}

func sortedNames[V any](m map[string]V) []string {
	l := []string{}
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
