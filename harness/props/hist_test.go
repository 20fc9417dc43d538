package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Honest repositories and their evolution.

var rolePool = []string{"a", "b", "c", "dir/role", "a b", "ü-role", "pct%2Fx", "pct/x", "plus+x", "..", "UPPER", "upper", "A", "q?x=1#y", "targets2", " a", "b ", "c\n"}

var pathPool = []string{"f1.txt", "f2", "dir/f1.txt", "dir/f2.bin", "dir/sub/x", "dir/sub/y", "a b/c d", "ü/é", "pct%20x", "plus+x", "deep/1/2/3/4", "dir//empty", "q?x=1", "h#1", "UPPER/f1.txt", "/abs/x", "./f2"}

var patternPool = []string{"*", "*/*", "*/*/*", "dir/*", "dir/f?.*", "f[0-9]*", "dir/sub/x", "d*/s*/[xy]", "deep/*/*/*/*", "[^f]*", "UPPER/*", "a b/*", "nothing", "/*/*"}

func content(path string, n int) []byte {
	return []byte(strings.Repeat(fmt.Sprintf("%s#%d|", path, n), 1+n%7))
}

// genRepo draws a repository and publishes its first version.
func genRepo(t *rapid.T) *ref.Repo {
	top := map[string]ref.RoleSpec{}
	for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
		top[r] = roleSpec(t, "top-"+r, 3)
	}
	r := ref.NewRepo(top, chance(t, "consistent", 60))
	r.Indent = chance(t, "indent", 20)
	setRecords(t, r)
	for i, n := 0, intn(t, "roles0", 0, 4); i < n; i++ {
		addRole(t, r)
	}
	for i, n := 0, intn(t, "files0", 1, 5); i < n; i++ {
		putFile(t, r)
	}
	if chance(t, "rootv", 30) {
		r.RootV = int64(intn(t, "rootv0", 1, 12))
	}
	if chance(t, "old repository", 10) {
		// published so often that numbers are long
		big := func(label string) int64 {
			return pick(t, label, int64(0), 8, 98, 1<<31-2, 1<<31, 1<<32+1, 1<<53)
		}
		r.TSV, r.SNV = big("old timestamp"), big("old snapshot")
		for _, n := range roleNames(r) {
			r.Roles[n].Version = big("old " + n)
		}
		if chance(t, "old root", 40) {
			r.RootV = big("old root version")
		}
	}
	if chance(t, "large metadata", 3) {
		ro := r.Roles[pick(t, "large role", roleNames(r)...)]
		ro.Extra = ref.M{"x-padding": strings.Repeat("padding ", pick(t, "padding", 9_000, 9_000, 9_000, 150_000))}
	}
	r.Publish()
	return r
}

func setRecords(t *rapid.T, r *ref.Repo) {
	r.RecLength, r.TSLength = chance(t, "reclen", 50), chance(t, "tslen", 50)
	r.RecAlgs = pick(t, "recalgs", []string{}, []string{"sha256"}, []string{"sha512"}, []string{"sha256", "sha512"})
	r.TSAlgs = pick(t, "tsalgs", []string{}, []string{"sha256"}, []string{"sha256", "sha512"})
}

func roleNames(r *ref.Repo) []string {
	var out []string
	for n := range r.Roles {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// addRole delegates a new (or another time an existing) role.
func addRole(t *rapid.T, r *ref.Repo) string {
	names := roleNames(r)
	parent := names[intn(t, "parent", 0, len(names)-1)]
	p := r.Roles[parent]
	if p.Succ != nil {
		return "nothing"
	}
	if len(p.Delegs) == 0 && parent != "targets" && chance(t, "succinct", 15) || parent == "targets" && len(p.Delegs) == 0 && chance(t, "succ-top", 12) {
		s := &ref.Succ{Prefix: pick(t, "prefix", "bin", "b in", "x/y-", "") + parent, Bits: int64(intn(t, "bits", 1, 3)), Keys: roleSpec(t, "binkeys", 2)}
		for i := uint64(0); i < 1<<uint(s.Bits); i++ {
			n := ref.BinName(s.Prefix, s.Bits, i)
			if r.Roles[n] != nil {
				return "nothing"
			}
		}
		p.Succ, p.Dirty = s, true
		for i := uint64(0); i < 1<<uint(s.Bits); i++ {
			r.AddRole(ref.BinName(s.Prefix, s.Bits, i), s.Keys)
		}
		return "bins " + s.Prefix
	}
	name := pick(t, "rolename", rolePool...)
	for _, d := range p.Delegs {
		if d.Name == name {
			return "nothing"
		}
	}
	if r.Roles[name] == nil {
		r.AddRole(name, roleSpec(t, "rolekeys", 3))
	}
	d := ref.Deleg{Name: name, Terminating: chance(t, "term", 20)}
	for i, n := 0, intn(t, "npat", 1, 3); i < n; i++ {
		d.Paths = append(d.Paths, pick(t, "pat", patternPool...))
	}
	at := intn(t, "at", 0, len(p.Delegs))
	p.Delegs = append(p.Delegs[:at:at], append([]ref.Deleg{d}, p.Delegs[at:]...)...)
	p.Dirty = true
	return parent + " delegates to " + name
}

// putFile adds or changes a target. All roles that list a path list the same
// bytes, but their descriptions are told apart by custom data.
func putFile(t *rapid.T, r *ref.Repo) string {
	names := roleNames(r)
	holder := names[intn(t, "holder", 0, len(names)-1)]
	p := pick(t, "path", pathPool...)
	b := content(p, intn(t, "content", 0, 40))
	if chance(t, "emptyfile", 4) {
		b = []byte{}
	}
	h := r.Roles[holder]
	h.Files[p] = b
	h.Dirty = true
	h.Algs = pick(t, "falgs", []string{"sha256"}, []string{"sha512"}, []string{"sha256", "sha512"})
	h.Custom[p] = ref.M{"by": holder, "n": intn(t, "customn", 0, 9)}
	for _, n := range names {
		o := r.Roles[n]
		if old, ok := o.Files[p]; ok && string(old) != string(b) {
			o.Files[p] = b
			o.Dirty = true
		}
	}
	return holder + " lists " + p
}

// evolve publishes one more version of the repository.
func evolve(t *rapid.T, r *ref.Repo) string {
	var what []string
	for i, n := 0, intn(t, "changes", 0, 3); i < n; i++ {
		switch intn(t, "change", 0, 11) {
		case 0, 1, 2:
			what = append(what, putFile(t, r))
		case 3, 4:
			what = append(what, addRole(t, r))
		case 5: // remove a file
			names := roleNames(r)
			h := r.Roles[names[intn(t, "rmholder", 0, len(names)-1)]]
			var fs []string
			for p := range h.Files {
				fs = append(fs, p)
			}
			sort.Strings(fs)
			if len(fs) > 0 {
				p := fs[intn(t, "rm", 0, len(fs)-1)]
				delete(h.Files, p)
				h.Dirty = true
				what = append(what, "removes "+p)
			}
		case 6, 7: // rotate keys
			names := append([]string{"root", "timestamp", "snapshot"}, roleNames(r)...)
			n := names[intn(t, "rotrole", 0, len(names)-1)]
			bin := false
			for _, p := range roleNames(r) {
				if s := r.Roles[p].Succ; s != nil && strings.HasPrefix(n, s.Prefix+"-") {
					r.RotateSucc(p, roleSpec(t, "rotkeys", 3))
					bin = true
					break
				}
			}
			if !bin {
				r.Rotate(n, roleSpec(t, "rotkeys", 3))
			}
			what = append(what, "rotates "+n)
		case 8:
			r.TouchRoot()
			what = append(what, "re-signs root")
		case 9:
			names := roleNames(r)
			n := names[intn(t, "resign", 0, len(names)-1)]
			r.Roles[n].Dirty = true
			what = append(what, "re-signs "+n)
		case 10:
			setRecords(t, r)
			what = append(what, "records other facts")
		case 11:
			r.Consistent = !r.Consistent
			r.TouchRoot()
			r.TouchSnapshot()
			for _, n := range roleNames(r) {
				r.Roles[n].Dirty = true
			}
			what = append(what, fmt.Sprintf("consistent=%v", r.Consistent))
		}
	}
	if chance(t, "touchsn", 10) {
		r.TouchSnapshot()
	}
	r.Publish()
	return strings.Join(what, ", ")
}

// lookups draws target paths worth asking for.
func lookups(t *rapid.T, r *ref.Repo, n int) []string {
	var all []string
	seen := map[string]bool{}
	for _, name := range roleNames(r) {
		for p := range r.Roles[name].Files {
			if !seen[p] {
				seen[p] = true
				all = append(all, p)
			}
		}
	}
	sort.Strings(all)
	var out []string
	for i := 0; i < n; i++ {
		if len(all) > 0 && chance(t, "existing", 80) {
			p := all[intn(t, "lookup", 0, len(all)-1)]
			if chance(t, "nearly", 6) {
				p = pick(t, "near", "/"+p, p+"/", "./"+p, p+" ", strings.ToUpper(p), strings.TrimPrefix(p, "/"))
			}
			out = append(out, p)
		} else {
			out = append(out, pick(t, "lookup2", append(pathPool, "absent", "")...))
		}
	}
	return out
}
