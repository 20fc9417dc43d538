package props

import (
	"encoding/base64"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

var graphPaths = []string{"a/x", "a/y", "b/x", "top", "a/b/c", "z", "a/x", "a/y", "b/x", "top", "a/b/c", "z", "/top", "/a/x", "top/", "./top", "a//x"}
var graphPatterns = []string{"*/*", "a/*", "b/*", "*/x", "*", "*/*/*", "z", "a/x", "top", "/*", "*/", "a//x"}

// genGraph draws a delegation graph: roles delegate to arbitrary roles, so
// cycles, diamonds and self-delegations all occur.
func genGraph(t *rapid.T) (*ref.Repo, string) {
	top := map[string]ref.RoleSpec{}
	for i, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
	}
	r := ref.NewRepo(top, chance(t, "consistent", 50))
	n := intn(t, "roles", 1, 9)
	shape := pick(t, "shape", "random", "random", "random", "dense", "chain", "star", "fan")
	if shape == "chain" {
		n = intn(t, "chain", 3, 36)
	}
	if shape == "star" {
		n = intn(t, "star", 3, 20)
	}
	if shape == "fan" {
		n = intn(t, "fan", 12, 34)
	}
	names := []string{"targets"}
	alike := chance(t, "names alike", 30)
	for i := 0; i < n; i++ {
		// names in an order unrelated to the order of delegation
		name := fmt.Sprintf("r%02d", (i*7+3)%41)
		if alike {
			// distinct names that a careless comparison takes for the same
			name = fmt.Sprintf("r%02d", (i/6*7+3)%41)
			name = []string{name, strings.ToUpper(name), name + " ", name + ".json", "d/" + name, "d%2F" + name}[i%6]
		}
		r.AddRole(name, ref.RoleSpec{Keys: []*ref.Key{ref.Ed(4 + i)}, Threshold: 1})
		names = append(names, name)
	}
	stops := 18
	if shape == "fan" {
		stops = 2
	}
	edge := func(from, to string, loose bool) {
		p := r.Roles[from]
		for _, d := range p.Delegs {
			if d.Name == to {
				return
			}
		}
		d := ref.Deleg{Name: to, Terminating: chance(t, "terminating", stops)}
		for i, k := 0, intn(t, "patterns", 1, 3); i < k; i++ {
			d.Paths = append(d.Paths, pick(t, "pattern", graphPatterns...))
		}
		if loose {
			d.Paths = append(d.Paths, "*/*", "*", "*/*/*")
		}
		p.Delegs = append(p.Delegs, d)
	}
	switch shape {
	case "chain":
		for i := 1; i < len(names); i++ {
			edge(names[i-1], names[i], true)
		}
	case "fan":
		for i := 1; i < len(names); i++ {
			edge(names[0], names[i], true)
		}
	case "star":
		for i := 1; i < len(names); i++ {
			edge(names[0], names[i], chance(t, "loose", 60))
		}
	default:
		for _, from := range names {
			k := intn(t, "fanout", 0, 4)
			if shape == "dense" || from == "targets" {
				k += 2
			}
			for i := 0; i < k; i++ {
				edge(from, names[intn(t, "to", 1, len(names)-1)], chance(t, "loose", 30))
			}
		}
	}
	// bins below some role without ordinary delegations
	if chance(t, "bins", 25) {
		for _, p := range names {
			if len(r.Roles[p].Delegs) > 0 {
				continue
			}
			s := &ref.Succ{Prefix: "bin", Bits: int64(intn(t, "bits", 1, 3)), Keys: ref.RoleSpec{Keys: []*ref.Key{ref.Ed(39)}, Threshold: 1}}
			r.Roles[p].Succ = s
			for i := uint64(0); i < 1<<uint(s.Bits); i++ {
				b := ref.BinName(s.Prefix, s.Bits, i)
				r.AddRole(b, s.Keys)
				names = append(names, b)
			}
			break
		}
	}
	// holders
	k := intn(t, "holders", 1, 8)
	for i := 0; i < k; i++ {
		h := names[intn(t, "holder", 0, len(names)-1)]
		p := pick(t, "path", graphPaths...)
		r.Roles[h].Files[p] = []byte("from " + h)
		r.Roles[h].Custom[p] = ref.M{"by": h}
	}
	r.Publish()
	bad := ""
	if chance(t, "bad role", 12) {
		// the metadata of one role cannot be had: reaching it ends the search
		// with an error, whatever other roles there are
		n := names[intn(t, "which role", 1, len(names)-1)]
		o := r.Roles[n]
		switch intn(t, "bad how", 0, 2) {
		case 0:
			bad = n + " is not served"
			delete(r.Meta, ref.QueryEscape(n)+".json")
			delete(r.Meta, fmt.Sprintf("%d.%s.json", o.Version, ref.QueryEscape(n)))
		case 1:
			bad = n + " is expired"
			o.Expires, o.Dirty = ref.FarPast, true
			r.Publish()
		case 2:
			bad = n + " is cut off"
			doc := r.CurRole[n][:len(r.CurRole[n])-1]
			r.CurRole[n] = doc
			r.Meta[ref.QueryEscape(n)+".json"] = doc
			r.Meta[fmt.Sprintf("%d.%s.json", o.Version, ref.QueryEscape(n))] = doc
		}
	} else if chance(t, "bad edge", 12) {
		// one edge names other keys or a role that does not exist: reaching it
		// ends the search with an error, not reaching it changes nothing
		var ps []string
		for _, p := range roleNames(r) {
			if len(r.Roles[p].Delegs) > 0 {
				ps = append(ps, p)
			}
		}
		if len(ps) > 0 {
			p := r.Roles[ps[intn(t, "bad parent", 0, len(ps)-1)]]
			s := r.Signed(p)
			rs := ref.Arr(ref.Obj(s["delegations"])["roles"])
			e := ref.Obj(rs[intn(t, "bad child", 0, len(rs)-1)])
			if chance(t, "ghost", 50) {
				bad = fmt.Sprintf("%s delegates %v to a role that does not exist", p.Name, e["name"])
				e["name"] = "ghost"
			} else {
				bad = fmt.Sprintf("%s delegates %v with the wrong key", p.Name, e["name"])
				st := ref.NewEd25519(600)
				e["keyids"] = []any{st.ID()}
				ref.Obj(ref.Obj(s["delegations"])["keys"])[st.ID()] = st.Doc()
			}
			doc := ref.SignAll(s, p.Keys.Keys...)
			r.CurRole[p.Name] = doc
			r.Meta[ref.QueryEscape(p.Name)+".json"] = doc
			r.Meta[fmt.Sprintf("%d.%s.json", p.Version, ref.QueryEscape(p.Name))] = doc
		}
	}
	return r, bad
}

func describeGraph(r *ref.Repo) []string {
	var out []string
	for _, n := range roleNames(r) {
		o := r.Roles[n]
		s := n + ":"
		for _, d := range o.Delegs {
			s += fmt.Sprintf(" %s%v", d.Name, d.Paths)
			if d.Terminating {
				s += "!"
			}
		}
		if o.Succ != nil {
			s += fmt.Sprintf(" bins %d", o.Succ.Bits)
		}
		var fs []string
		for p := range o.Files {
			fs = append(fs, p)
		}
		sort.Strings(fs)
		if len(fs) > 0 {
			s += fmt.Sprintf(" holds %q", fs)
		}
		out = append(out, s)
	}
	return out
}

// TestC10Graph: look-ups over generated delegation graphs.
func TestC10Graph(t *testing.T) {
	run(t, 260, func(t *rapid.T) {
		defer countLogs(20000)()
		r, bad := genGraph(t)
		cfg := baseConfig()
		cfg.MaxDelegations = pick(t, "max", 32, 32, 32, 0, 1, 2, 3, 4, 5, 8, 12)
		rec := ev.New("C10Graph")
		var paths []string
		for i, n := 0, intn(t, "lookups", 2, 6); i < n; i++ {
			paths = append(paths, pick(t, "lookup", graphPaths...))
		}
		base := map[string]string{}
		for round := 0; round < 2; round++ {
			s := newSession(t, cfg)
			s.lazy = true
			s.hist = append(describeGraph(r), fmt.Sprintf("limit %d", cfg.MaxDelegations), bad)
			s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
			func() {
				defer s.close()
				if !s.start(r.Roots[1]) || !s.refresh() {
					s.fail("cannot refresh")
				}
				for i := range paths {
					// the second client asks in the opposite order
					p := paths[i]
					if round == 1 {
						p = paths[len(paths)-1-i]
					}
					mark := len(s.fetch.log)
					ti, _ := s.info(p)
					if d := logDiff(s.fetch.log[mark:], s.rc.Log[mark:]); d != "" {
						s.fail("lookup of %q visits other roles: %s", p, d)
					}
					got := "not found"
					if ti != nil {
						got = string(must(ti.MarshalJSON()))
					}
					if bad == "" {
						want, holder := publishedInfo(r, p, cfg.MaxDelegations)
						if (want == nil) != (ti == nil) {
							s.fail("lookup of %q: found %v, pre-order search finds it in %q", p, ti != nil, holder)
						}
						if want != nil {
							if d := infoDiff(ti, p, want); d != "" {
								s.fail("lookup of %q: %s (first holder %q)", p, d, holder)
							}
							rec.ClassIf(holder != "targets", "found in a delegated role")
						}
						if o, ok := base[p]; ok && o != got {
							s.fail("two lookups of %q differ: %s / %s", p, o, got)
						}
						base[p] = got
						_, _, visited, _ := ref.Walk(p, math.MaxInt32, func(role, parent string) (ref.M, bool) {
							return must(ref.ParseDoc(r.CurRole[role], "targets")).Signed, true
						})
						rec.ClassIf(len(visited) > cfg.MaxDelegations+1, "limit reached").ClassIf(len(visited) > 3, "more than 3 roles visited")
					}
					rec.ClassIf(ti == nil, "not found")
				}
				// again, now from what is already loaded
				for _, p := range paths {
					mark := len(s.fetch.log)
					ti, _ := s.info(p)
					if bad == "" {
						got := "not found"
						if ti != nil {
							got = string(must(ti.MarshalJSON()))
						}
						if got != base[p] {
							s.fail("a repeated lookup of %q differs", p)
						}
						if len(s.fetch.log) != mark {
							s.fail("a repeated lookup of %q downloads again: %v", p, s.fetch.log[mark:])
						}
					}
				}
				s.compare("all look-ups")
			}()
		}
		rec.ClassIf(bad != "", "unusable delegation")
		d := describeGraph(r)
		rec.Add(fmt.Sprint(d), cfg.MaxDelegations, fmt.Sprint(paths)).NonTrivial(len(r.Roles) > 2)
		if rec.Wants() {
			rec.Sample(map[string]any{"graph": d, "limit": cfg.MaxDelegations, "lookups": paths})
		}
		rec.End()
	})
}

// ---- C11 ----

var globParts = []string{"a", "b", "ab", "*", "*", "?", "[ab]", "[^a]", "[a-c]", "\\*", "\\a", "é", ".", "-", "[", "]", "[a", "[]", "[^]", "[a-]", "\\", "{a,b}", "**", "%2F", " ", "!", "[!a]", "A"}
var nameParts = []string{"a", "b", "c", "ab", "*", "é", ".", "-", "?", "[", "]", "\\", "%2F", " ", "A", "!", "{a,b}", ""}

func joinParts(t *rapid.T, label string, parts []string, maxSegs, maxParts int) string {
	var segs []string
	if chance(t, label+" deep", 4) {
		maxSegs = 40
	}
	for i, n := 0, intn(t, label+" segments", 1, maxSegs); i < n; i++ {
		var b strings.Builder
		for j, m := 0, intn(t, label+" parts", 0, maxParts); j < m; j++ {
			b.WriteString(pick(t, label, parts...))
		}
		segs = append(segs, b.String())
	}
	return strings.Join(segs, "/")
}

// pathFor draws a path close to what the pattern describes.
func pathFor(t *rapid.T, pattern string) string {
	var b strings.Builder
	rs := []rune(pattern)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '*':
			b.WriteString(pick(t, "star", "", "a", "xyz", "a.b", "x/y"))
		case '?':
			b.WriteString(pick(t, "any", "a", "é", "?", "", "/"))
		case '[':
			b.WriteString(pick(t, "class", "a", "b", "c", "^", "!", ""))
			for i < len(rs) && rs[i] != ']' {
				i++
			}
		case '\\':
			if i+1 < len(rs) {
				i++
				b.WriteRune(rs[i])
			}
		default:
			b.WriteRune(rs[i])
		}
	}
	s := b.String()
	switch intn(t, "change", 0, 9) {
	case 0:
		s += pick(t, "tail", "/", "a", "/a", "")
	case 1:
		s = pick(t, "head", "/", "a", "a/", "./") + s
	case 2:
		s = strings.Replace(s, "a", "b", 1)
	}
	return s
}

// TestC11Patterns: path patterns against an independent glob matcher.
func TestC11Patterns(t *testing.T) {
	run(t, 30000, func(t *rapid.T) {
		n := intn(t, "roles", 1, 4)
		if chance(t, "many roles", 3) {
			n = intn(t, "number of roles", 5, 60)
		}
		usual := ""
		var roles []any
		var sut []metadata.DelegatedRole
		var pats []string
		for i := 0; i < n; i++ {
			var ps []any
			var ss []string
			for j, m := 0, intn(t, "patterns", 0, 3); j < m; j++ {
				p := usual
				if n < 5 || p == "" || chance(t, "other pattern", 30) {
					p = joinParts(t, "pattern", globParts, 3, 3)
				}
				if usual == "" {
					usual = p
				}
				ps = append(ps, p)
				ss = append(ss, p)
				pats = append(pats, p)
			}
			if ss == nil && chance(t, "empty list", 50) {
				ss = []string{}
			}
			term := chance(t, "terminating", 40)
			name := fmt.Sprintf("role%d", i)
			roles = append(roles, ref.M{"name": name, "paths": ps, "terminating": term})
			sut = append(sut, metadata.DelegatedRole{Name: name, Paths: ss, Terminating: term})
		}
		path := joinParts(t, "path", nameParts, 3, 3)
		if len(pats) > 0 && chance(t, "near", 75) {
			path = pathFor(t, pats[intn(t, "which", 0, min(len(pats)-1, 9))])
		}
		want := map[string]bool{}
		covered := 0
		for i := range roles {
			o := ref.Obj(roles[i])
			c := ref.Covers(o, path)
			if c {
				covered++
				want[ref.Str(o["name"])] = ref.Bool(o["terminating"])
			}
			var got bool
			var err error
			if p := guard(func() { got, err = sut[i].IsDelegatedPath(path) }); p != "" {
				t.Fatalf("IsDelegatedPath(%q) with patterns %q: %s", path, sut[i].Paths, p)
			}
			if err != nil || got != c {
				t.Fatalf("patterns %q cover %q: got %v (%v), want %v", sut[i].Paths, path, got, err, c)
			}
		}
		d := metadata.Delegations{Roles: sut}
		if got := d.GetRolesForTarget(path); !sameFlags(got, want) {
			t.Fatalf("roles for %q: got %v, want %v\nroles %s", path, got, want, ref.Encode(roles))
		}
		rec := ev.New("C11Patterns").Add(path, string(ref.Encode(roles))).NonTrivial(len(pats) > 0)
		rec.ClassIf(covered > 0, "covered").ClassIf(covered == 0 && len(pats) > 0, "not covered").ClassIf(covered > 1, "covered by several").ClassIf(len(pats) == 0, "no pattern")
		if rec.Wants() {
			rec.Sample(map[string]any{"path": path, "roles": roles, "covering": want})
		}
		rec.End()
	})
}

func sameFlags(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// TestC11Bins: bin assignment, membership and listing for every bit length.
func TestC11Bins(t *testing.T) {
	run(t, 12000, func(t *rapid.T) {
		bits := int64(intn(t, "bits", 1, 32))
		prefix := pick(t, "prefix", "bin", "", "a-b", "é", "%", "x/y", "delegated-", "0", "%d", "100%x-", "a b", "..")
		s := metadata.SuccinctRoles{BitLength: int(bits), NamePrefix: prefix, KeyIDs: []string{"k"}, Threshold: 1}
		doc := ref.M{"bit_length": bits, "name_prefix": prefix}
		rec := ev.New("C11Bins")
		for i, n := 0, intn(t, "paths", 1, 6); i < n; i++ {
			path := joinParts(t, "path", nameParts, 3, 3)
			switch salt := fmt.Sprint(intn(t, "salt", 0, 1<<20)); intn(t, "salted", 0, 7) {
			case 0: // as it is
			case 1:
				path = salt + path
			case 2:
				path = pick(t, "edge", "", "/", "//", "./", "../", " ", "\xff", "\x00", strings.Repeat("a/", 500)) + salt + path
			case 3:
				path += salt + pick(t, "edge", "/", "//", "/.", "/..", " ", "\n", "\xff", "\x00", ".json", "%2f")
			default:
				path += salt
			}
			want := ref.BinName(prefix, bits, ref.BinIndex(bits, path))
			var got map[string]bool
			if p := guard(func() { got = s.GetRolesForTarget(path) }); p != "" {
				t.Fatalf("GetRolesForTarget: %s", p)
			}
			if len(got) != 1 || !got[want] {
				t.Fatalf("bit length %d assigns %q to %v, want only %q, terminating", bits, path, got, want)
			}
			if !s.IsDelegatedRole(want) {
				t.Fatalf("bit length %d: %q is assigned to %q, which is not reported as a bin", bits, path, want)
			}
			d := metadata.Delegations{SuccinctRoles: &s}
			if g := d.GetRolesForTarget(path); !sameFlags(g, got) {
				t.Fatalf("Delegations.GetRolesForTarget(%q) = %v, want %v", path, g, got)
			}
			rec.Add(path)
		}
		// membership of names near real ones
		for i, n := 0, intn(t, "names", 1, 6); i < n; i++ {
			idx := uint64(intn(t, "hi", 0, 1<<16))<<16 | uint64(intn(t, "lo", 0, 1<<16-1))
			switch intn(t, "where", 0, 3) {
			case 0:
				idx = 1<<uint(bits) - 1
			case 1:
				idx = 0
			case 2:
				idx %= 1 << uint(bits)
			}
			suffix := fmt.Sprintf("%0*x", ref.BinSuffixLen(bits), idx)
			switch intn(t, "spoil", 0, 11) {
			case 0:
				suffix = "0" + suffix
			case 1:
				suffix = strings.ToUpper(suffix)
			case 2:
				suffix = "+" + suffix[1:]
			case 3:
				suffix = "-" + suffix[1:]
			case 4:
				suffix = suffix[:len(suffix)-1]
			case 5:
				suffix += pick(t, "tail", "0", " ", ".json", "g")
			case 6:
				suffix = suffix[1:] + pick(t, "odd", "g", "_", "x", " ", "ａ")
			case 7:
				suffix = fmt.Sprintf("%0*x", ref.BinSuffixLen(bits), uint64(1)<<uint(bits))
			}
			name := pick(t, "p", prefix, prefix, prefix, prefix, prefix+"-", "other", "") + pick(t, "dash", "-", "-", "-", "-", "", "--") + suffix
			want := ref.IsBinName(doc, name)
			var got bool
			if p := guard(func() { got = s.IsDelegatedRole(name) }); p != "" {
				t.Fatalf("IsDelegatedRole(%q): %s", name, p)
			}
			if got != want {
				t.Fatalf("bit length %d, prefix %q: IsDelegatedRole(%q) = %v, want %v", bits, prefix, name, got, want)
			}
			rec.Add(name).ClassIf(want, "is a bin").ClassIf(!want, "is no bin")
		}
		if sl, nb := s.GetSuffixLen(); sl != ref.BinSuffixLen(bits) || nb != 1<<uint(bits) {
			t.Fatalf("bit length %d: suffix length %d and %d bins", bits, sl, nb)
		}
		rec.Add(bits, prefix).Class(fmt.Sprintf("bits %d-%d", bits/8*8, bits/8*8+7)).NonTrivial(true)
		rec.Sample(map[string]any{"bits": bits, "prefix": prefix}).End()
	})
}

// TestC11Listing enumerates the bins of every small bit length.
func TestC11Listing(t *testing.T) {
	max := 11
	if thorough() {
		max = 18
	}
	i, n := shard()
	for bits := 1; bits <= max; bits++ {
		if (bits-1)%n != i {
			continue
		}
		for _, prefix := range []string{"bin", "", "a-0", "%", "100%d", "é%s", "x/y"} {
			s := metadata.SuccinctRoles{BitLength: bits, NamePrefix: prefix}
			got := s.GetRoles()
			if len(got) != 1<<bits {
				t.Fatalf("bit length %d lists %d bins", bits, len(got))
			}
			for k, g := range got {
				if w := ref.BinName(prefix, int64(bits), uint64(k)); g != w {
					t.Fatalf("bit length %d: bin %d is listed as %q, want %q", bits, k, g, w)
				}
				if !s.IsDelegatedRole(g) {
					t.Fatalf("bit length %d: listed bin %q is not reported as a bin", bits, g)
				}
			}
			ev.New("C11Listing").Add(bits, prefix).Class("listing of all bins").NonTrivial(true).Sample(map[string]any{"bits": bits, "prefix": prefix, "last": got[len(got)-1]}).End()
		}
	}
}

// TestC11Prefixes: a role with hash prefixes covers exactly the paths whose
// digest, written out, begins with one of them. The writing is hexadecimal; as
// long as the listed finding stands, it is base64url instead.
func TestC11Prefixes(t *testing.T) {
	run(t, 6000, func(t *rapid.T) {
		writtenAs := func(path string) string { return ref.Hex(ref.SHA256([]byte(path))) }
		known := "a/path"
		if ok, err := (&metadata.DelegatedRole{Name: "r", PathHashPrefixes: []string{writtenAs(known)[:9]}}).IsDelegatedPath(known); err == nil && !ok {
			writtenAs = func(path string) string { return base64.URLEncoding.EncodeToString(ref.SHA256([]byte(path))) }
		}
		path := joinParts(t, "path", nameParts, 1, 3) + pick(t, "salt", "", fmt.Sprint(intn(t, "number", 0, 1<<20)))
		other := joinParts(t, "other path", nameParts, 1, 3)
		h := writtenAs(path)
		var prefixes []string
		for i, n := 0, intn(t, "prefixes", 1, 4); i < n; i++ {
			from := pick(t, "of", h, h, writtenAs(other))
			p := from[:pick(t, "length", 1, 2, 3, 4, 8, len(from)-1, len(from))]
			switch intn(t, "spoil", 0, 9) {
			case 0:
				p = strings.ToLower(p)
			case 1:
				p = strings.ToUpper(p)
			case 2:
				p = from[1:min(len(from), 4)]
			case 3:
				p += pick(t, "tail", "0", "*", " ", "A", "=")
			case 4:
				p = pick(t, "junk", " "+p, "*", "?", p[:len(p)-1]+"?", "zz", p[:len(p)-1]+"*", "0x"+p)
			}
			prefixes = append(prefixes, p)
		}
		want := false
		for _, p := range prefixes {
			want = want || strings.HasPrefix(h, p)
		}
		role := metadata.DelegatedRole{Name: "r", PathHashPrefixes: prefixes, Terminating: chance(t, "terminating", 50)}
		if chance(t, "no patterns", 30) {
			role.Paths = []string{}
		}
		var got bool
		var err error
		if p := guard(func() { got, err = role.IsDelegatedPath(path) }); p != "" || err != nil {
			t.Fatalf("IsDelegatedPath(%q) with prefixes %q: %s %v", path, prefixes, p, err)
		}
		if got != want {
			t.Fatalf("digest %s of %q with prefixes %q: covered %v, want %v", h, path, prefixes, got, want)
		}
		d := metadata.Delegations{Roles: []metadata.DelegatedRole{role}}
		g := d.GetRolesForTarget(path)
		if f, ok := g["r"]; ok != want || ok && f != role.Terminating || len(g) > 1 {
			t.Fatalf("digest %s of %q with prefixes %q: roles %v", h, path, prefixes, g)
		}
		ev.New("C11Prefixes").Add(path, strings.Join(prefixes, " ")).ClassIf(want, "covered").ClassIf(!want, "not covered").NonTrivial(true).Sample(map[string]any{"path": path, "prefixes": prefixes}).End()
	})
}

// TestC11PrefixFinding reports the listed finding about path_hash_prefixes.
func TestC11PrefixFinding(t *testing.T) {
	once(t, func(t *testing.T) {
		path := "a/path"
		h := ref.Hex(ref.SHA256([]byte(path)))
		r := metadata.DelegatedRole{Name: "r", PathHashPrefixes: []string{h[:9]}}
		if ok, err := r.IsDelegatedPath(path); err == nil && !ok {
			ev.Known(fmt.Sprintf("[hash-prefixes] path_hash_prefixes are compared with the base64url form of the SHA-256, not the hexadecimal one: prefix %q does not cover %q", h[:9], path))
		}
		// neither a prefix nor a pattern: covers nothing
		if ok, _ := (&metadata.DelegatedRole{Name: "r"}).IsDelegatedPath(path); ok {
			t.Fatalf("a role without patterns and prefixes covers %q", path)
		}
		ev.New("C11PrefixFinding").Add(path).End()
	})
}
