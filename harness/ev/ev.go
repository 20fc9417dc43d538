// Package ev counts what a check actually covered. One process runs one
// property; at exit the counts are written to $VERIF_EV_OUT as JSON.
package ev

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sync"
)

const maxHashes = 400000
const maxSamples = 12

type store struct {
	sync.Mutex
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Classes     map[string]int64 `json:"classes"`
	Hashes      []uint64         `json:"hashes"`
	Samples     []any            `json:"samples"`
	Notes       []string         `json:"notes"`
	Known       []string         `json:"known"`
	seen        map[uint64]bool
	perTest     map[string]int
}

var s = &store{Classes: map[string]int64{}, seen: map[uint64]bool{}, perTest: map[string]int{}}

// Rec describes one generated case.
type Rec struct {
	test       string
	h          uint64
	classes    map[string]bool
	nontrivial bool
	sample     any
}

// New starts a case of the named test.
func New(test string) *Rec {
	f := fnv.New64a()
	f.Write([]byte(test))
	return &Rec{test: test, h: f.Sum64(), classes: map[string]bool{}}
}

// Add folds part of the case into its identity.
func (r *Rec) Add(parts ...any) *Rec {
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], r.h)
	f.Write(b[:])
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			f.Write(x)
		case string:
			f.Write([]byte(x))
		default:
			fmt.Fprintf(f, "%v", x)
		}
		f.Write([]byte{0})
	}
	r.h = f.Sum64()
	return r
}

// Class labels the case.
func (r *Rec) Class(names ...string) *Rec {
	for _, n := range names {
		r.classes[n] = true
	}
	return r
}

// ClassIf labels the case if the condition holds.
func (r *Rec) ClassIf(cond bool, name string) *Rec {
	if cond {
		r.classes[name] = true
	}
	return r
}

// NonTrivial marks the case non-trivial when cond holds.
func (r *Rec) NonTrivial(cond bool) *Rec { r.nontrivial = r.nontrivial || cond; return r }

// Sample attaches a written-out form of the case.
func (r *Rec) Sample(v any) *Rec { r.sample = v; return r }

// End records the case.
func (r *Rec) End() {
	s.Lock()
	defer s.Unlock()
	s.Evaluations++
	for c := range r.classes {
		s.Classes[r.test+": "+c]++
	}
	if !r.nontrivial {
		return
	}
	s.NonTrivial++
	if !s.seen[r.h] && len(s.Hashes) < maxHashes {
		s.seen[r.h] = true
		s.Hashes = append(s.Hashes, r.h)
	}
	if r.sample != nil && s.perTest[r.test] < 2 && len(s.Samples) < maxSamples {
		s.perTest[r.test]++
		s.Samples = append(s.Samples, map[string]any{"test": r.test, "case": r.sample})
	}
}

// Wants reports whether another sample of the test would be kept, so that
// expensive samples need not be rendered.
func (r *Rec) Wants() bool {
	s.Lock()
	defer s.Unlock()
	return s.perTest[r.test] < 2
}

// Note records a remark once.
func Note(n string) {
	s.Lock()
	defer s.Unlock()
	for _, x := range s.Notes {
		if x == n {
			return
		}
	}
	s.Notes = append(s.Notes, n)
}

// Known records that a listed finding was observed.
func Known(n string) {
	s.Lock()
	defer s.Unlock()
	for _, x := range s.Known {
		if x == n {
			return
		}
	}
	s.Known = append(s.Known, n)
}

// Flush writes the counts.
func Flush() {
	out := os.Getenv("VERIF_EV_OUT")
	if out == "" {
		return
	}
	s.Lock()
	defer s.Unlock()
	b, err := json.Marshal(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ev:", err)
		return
	}
	os.WriteFile(out, b, 0o644)
}
