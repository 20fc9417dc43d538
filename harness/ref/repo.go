package ref

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// Deleg is one entry of a delegations list.
type Deleg struct {
	Name        string
	Paths       []string
	Terminating bool
}

// Succ is a succinct delegation.
type Succ struct {
	Prefix string
	Bits   int64
	Keys   RoleSpec
}

// TRole is a targets role in the simulated repository.
type TRole struct {
	Name    string
	Version int64
	Keys    RoleSpec
	Expires string
	Files   map[string][]byte
	Algs    []string
	Custom  map[string]M
	Delegs  []Deleg
	Succ    *Succ
	Extra   M
	Dirty   bool
}

// Repo is an honest repository: it only publishes consistent, correctly signed
// metadata. All published files are kept.
type Repo struct {
	Top        map[string]RoleSpec // root, timestamp, snapshot, targets
	Consistent bool
	Expires    string
	RootV      int64
	TSV, SNV   int64
	TSExpires  string
	SNExpires  string
	Roles      map[string]*TRole
	// what parents record
	RecLength bool
	RecAlgs   []string
	TSLength  bool
	TSAlgs    []string

	Meta   map[string][]byte // relative metadata file -> content
	Target map[string][]byte // relative target file -> content
	Roots  map[int64][]byte
	// current documents
	CurTS, CurSN []byte
	CurRole      map[string][]byte

	oldRootKeys RoleSpec
	// roles the snapshot does not list (a broken repository)
	Omit map[string]bool

	rootDirty bool
	snDirty   bool
	Indent    bool
}

// NewRepo creates an unpublished repository with one top-level targets role.
func NewRepo(top map[string]RoleSpec, consistent bool) *Repo {
	r := &Repo{Top: top, Consistent: consistent, Expires: FarFuture, TSExpires: FarFuture, SNExpires: FarFuture,
		Roles: map[string]*TRole{}, Meta: map[string][]byte{}, Target: map[string][]byte{}, Roots: map[int64][]byte{}, CurRole: map[string][]byte{}}
	r.AddRole("targets", top["targets"])
	r.rootDirty = true
	return r
}

// AddRole creates a targets role (it becomes reachable through delegations).
func (r *Repo) AddRole(name string, keys RoleSpec) *TRole {
	t := &TRole{Name: name, Keys: keys, Expires: FarFuture, Files: map[string][]byte{}, Algs: []string{"sha256"}, Custom: map[string]M{}, Dirty: true}
	r.Roles[name] = t
	return t
}

// TouchRoot forces a new root version.
func (r *Repo) TouchRoot() { r.rootDirty = true }

// TouchSnapshot forces a new snapshot version.
func (r *Repo) TouchSnapshot() { r.snDirty = true }

// Rotate replaces the keys of a top-level role or targets role.
func (r *Repo) Rotate(role string, keys RoleSpec) {
	switch role {
	case "root", "timestamp", "snapshot", "targets":
		r.Top[role] = keys
		r.rootDirty = true
		if role == "snapshot" {
			r.snDirty = true
		}
		if role == "targets" {
			r.Roles["targets"].Keys = keys
			r.Roles["targets"].Dirty = true
		}
	default:
		r.Roles[role].Keys = keys
		r.Roles[role].Dirty = true
		for _, t := range r.Roles {
			for _, d := range t.Delegs {
				if d.Name == role {
					t.Dirty = true
				}
			}
		}
	}
}

// RotateSucc replaces the keys of a succinct delegation.
func (r *Repo) RotateSucc(parent string, keys RoleSpec) {
	p := r.Roles[parent]
	p.Succ.Keys = keys
	p.Dirty = true
	for n := uint64(0); n < 1<<uint(p.Succ.Bits); n++ {
		if b := r.Roles[BinName(p.Succ.Prefix, p.Succ.Bits, n)]; b != nil {
			b.Keys = keys
			b.Dirty = true
		}
	}
}

func (r *Repo) enc(env M) []byte {
	if r.Indent {
		return EncodeIndent(env)
	}
	return Encode(env)
}

// Signed builds the signed part of a targets role.
func (r *Repo) Signed(t *TRole) M {
	tg := M{}
	for p, b := range t.Files {
		f := TargetFile(b, t.Algs...)
		if c := t.Custom[p]; c != nil {
			f["custom"] = c
		}
		tg[p] = f
	}
	var del M
	if len(t.Delegs) > 0 {
		roles := []any{}
		keys := M{}
		for _, d := range t.Delegs {
			spec := r.Roles[d.Name].Keys
			o := spec.Obj()
			o["name"] = d.Name
			o["terminating"] = d.Terminating
			ps := []any{}
			for _, p := range d.Paths {
				ps = append(ps, p)
			}
			o["paths"] = ps
			roles = append(roles, o)
			for _, k := range spec.Keys {
				keys[k.ID()] = k.Doc()
			}
		}
		del = M{"keys": keys, "roles": roles}
	} else if t.Succ != nil {
		o := t.Succ.Keys.Obj()
		o["bit_length"] = t.Succ.Bits
		o["name_prefix"] = t.Succ.Prefix
		del = M{"keys": KeysObj(t.Succ.Keys.Keys), "succinct_roles": o}
	}
	s := Targets(t.Version, t.Expires, tg, del)
	for k, v := range t.Extra {
		s[k] = v
	}
	return s
}

// Publish writes new versions of everything dirty plus a new snapshot (if a
// targets role changed) and a new timestamp.
func (r *Repo) Publish() {
	if r.rootDirty {
		r.RootV++
		s := Root(r.RootV, r.Expires, r.Consistent, r.Top)
		signers := append([]*Key{}, r.Top["root"].Keys...)
		signers = append(signers, r.oldRootKeys.Keys...)
		doc := r.enc(SignEnv(s, signers...))
		r.Roots[r.RootV] = doc
		r.Meta[fmt.Sprintf("%d.root.json", r.RootV)] = doc
		r.oldRootKeys = r.Top["root"]
		r.rootDirty = false
	}
	names := make([]string, 0, len(r.Roles))
	for n := range r.Roles {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := r.Roles[n]
		if !t.Dirty {
			continue
		}
		t.Version++
		doc := r.enc(SignEnv(r.Signed(t), t.Keys.Keys...))
		r.CurRole[n] = doc
		r.Meta[QueryEscape(n)+".json"] = doc
		r.Meta[fmt.Sprintf("%d.%s.json", t.Version, QueryEscape(n))] = doc
		for p, b := range t.Files {
			r.Target[p] = b
			dir, file := path.Split(p)
			for _, a := range t.Algs {
				r.Target[dir+HashOf(a, b)+"."+file] = b
			}
		}
		t.Dirty = false
		r.snDirty = true
	}
	if r.snDirty {
		r.SNV++
		meta := M{}
		for _, n := range names {
			if r.Omit[n] {
				continue
			}
			meta[n+".json"] = MetaFile(r.Roles[n].Version, r.CurRole[n], r.RecLength, r.RecAlgs...)
		}
		r.CurSN = r.enc(SignEnv(Snapshot(r.SNV, r.SNExpires, meta), r.Top["snapshot"].Keys...))
		r.Meta["snapshot.json"] = r.CurSN
		r.Meta[fmt.Sprintf("%d.snapshot.json", r.SNV)] = r.CurSN
		r.snDirty = false
	}
	r.TSV++
	r.CurTS = r.enc(SignEnv(Timestamp(r.TSV, r.TSExpires, MetaFile(r.SNV, r.CurSN, r.TSLength, r.TSAlgs...)), r.Top["timestamp"].Keys...))
	r.Meta["timestamp.json"] = r.CurTS
}

// Serve answers a request under the given metadata and target base addresses.
func (r *Repo) Serve(metaBase, targetBase, url string) Resp {
	if rel, ok := strings.CutPrefix(url, slash(targetBase)); ok {
		if b, ok := r.Target[rel]; ok {
			return Resp{Data: b}
		}
	}
	if rel, ok := strings.CutPrefix(url, slash(metaBase)); ok {
		if b, ok := r.Meta[rel]; ok {
			return Resp{Data: b}
		}
	}
	return Resp{Status: 404}
}

// Clone copies the repository (documents are shared, they are immutable).
func (r *Repo) Clone() *Repo {
	c := *r
	c.Top = map[string]RoleSpec{}
	for k, v := range r.Top {
		c.Top[k] = v
	}
	c.Roles = map[string]*TRole{}
	for k, v := range r.Roles {
		t := *v
		t.Files = map[string][]byte{}
		for p, b := range v.Files {
			t.Files[p] = b
		}
		t.Custom = map[string]M{}
		for p, b := range v.Custom {
			t.Custom[p] = b
		}
		t.Delegs = append([]Deleg{}, v.Delegs...)
		if v.Succ != nil {
			s := *v.Succ
			t.Succ = &s
		}
		c.Roles[k] = &t
	}
	cp := func(m map[string][]byte) map[string][]byte {
		o := map[string][]byte{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	c.Meta, c.Target, c.CurRole = cp(r.Meta), cp(r.Target), cp(r.CurRole)
	c.Roots = map[int64][]byte{}
	for k, v := range r.Roots {
		c.Roots[k] = v
	}
	return &c
}
