package ref

import "strings"

// SegMatch matches one path segment against a shell glob: '*', '?', character
// classes with ranges and '^' negation, backslash escapes. A malformed pattern
// matches nothing (valid is false).
func SegMatch(pat, s string) (match, valid bool) {
	p, ok := parseGlob([]rune(pat))
	if !ok {
		return false, false
	}
	return globMatch(p, []rune(s)), true
}

type globTok struct {
	kind byte // 'l' literal, '?', '*', '['
	r    rune
	neg  bool
	rng  [][2]rune
}

func parseGlob(p []rune) ([]globTok, bool) {
	var out []globTok
	for i := 0; i < len(p); {
		switch p[i] {
		case '*':
			out = append(out, globTok{kind: '*'})
			i++
		case '?':
			out = append(out, globTok{kind: '?'})
			i++
		case '\\':
			if i+1 >= len(p) {
				return nil, false
			}
			out = append(out, globTok{kind: 'l', r: p[i+1]})
			i += 2
		case '[':
			i++
			t := globTok{kind: '['}
			if i < len(p) && p[i] == '^' {
				t.neg = true
				i++
			}
			for n := 0; ; n++ {
				if i < len(p) && p[i] == ']' && n > 0 {
					i++
					break
				}
				get := func() (rune, bool) {
					if i >= len(p) || p[i] == '-' || p[i] == ']' {
						return 0, false
					}
					if p[i] == '\\' {
						i++
						if i >= len(p) {
							return 0, false
						}
					}
					r := p[i]
					i++
					return r, i < len(p)
				}
				lo, ok := get()
				if !ok {
					return nil, false
				}
				hi := lo
				if p[i] == '-' {
					i++
					if hi, ok = get(); !ok {
						return nil, false
					}
				}
				t.rng = append(t.rng, [2]rune{lo, hi})
			}
			out = append(out, t)
		default:
			out = append(out, globTok{kind: 'l', r: p[i]})
			i++
		}
	}
	return out, true
}

func globMatch(p []globTok, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0].kind == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	ok := false
	switch p[0].kind {
	case 'l':
		ok = p[0].r == s[0]
	case '?':
		ok = true
	case '[':
		for _, r := range p[0].rng {
			if r[0] <= s[0] && s[0] <= r[1] {
				ok = true
			}
		}
		ok = ok != p[0].neg
	}
	return ok && globMatch(p[1:], s[1:])
}

// PathMatch matches a target path against a delegation pattern, segment by
// segment.
func PathMatch(pattern, path string) bool {
	ps, ss := strings.Split(pattern, "/"), strings.Split(path, "/")
	if len(ps) != len(ss) {
		return false
	}
	for i := range ps {
		if m, ok := SegMatch(ps[i], ss[i]); !m || !ok {
			return false
		}
	}
	return true
}

// Covers reports whether a delegated role object (path patterns only) covers
// the path.
func Covers(role M, path string) bool {
	for _, p := range Strs(role["paths"]) {
		if PathMatch(p, path) {
			return true
		}
	}
	return false
}

// Child is an applicable delegation.
type Child struct {
	Name        string
	Terminating bool
}

// Children lists, in order, the delegations of a targets document that cover
// the path.
func Children(signed M, path string) []Child {
	del := Obj(signed["delegations"])
	if del == nil {
		return nil
	}
	if roles := Arr(del["roles"]); roles != nil {
		var out []Child
		for _, r := range roles {
			o := Obj(r)
			if Covers(o, path) {
				out = append(out, Child{Str(o["name"]), Bool(o["terminating"])})
			}
		}
		return out
	}
	if s := Obj(del["succinct_roles"]); s != nil {
		b := Int(s["bit_length"])
		return []Child{{BinName(Str(s["name_prefix"]), b, BinIndex(b, path)), true}}
	}
	return nil
}

// Walk is the reference pre-order depth-first search, written recursively:
// visit(role, parent) loads a role (false aborts the whole search). It returns
// the role that holds the target ("" if none), the visiting order, and whether
// the search was aborted by a load failure. At most limit delegated roles are
// visited besides the top-level one.
func Walk(path string, limit int, load func(role, parent string) (M, bool)) (holder string, signed M, visited []string, aborted bool) {
	seen := map[string]bool{}
	// result of a subtree: 0 continue, 1 stop everything
	var rec func(role, parent string) bool
	rec = func(role, parent string) bool {
		if seen[role] {
			return false
		}
		if len(seen) > limit {
			return true
		}
		doc, ok := load(role, parent)
		if !ok {
			aborted = true
			return true
		}
		seen[role] = true
		visited = append(visited, role)
		if _, ok := Obj(doc["targets"])[path]; ok {
			holder, signed = role, doc
			return true
		}
		for _, c := range Children(doc, path) {
			if rec(c.Name, role) {
				return true
			}
			if c.Terminating {
				return true
			}
		}
		return false
	}
	rec("targets", "root")
	return
}
