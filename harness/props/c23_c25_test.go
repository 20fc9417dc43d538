package props

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
	"pgregory.net/rapid"

	"verif/harness/ev"
)

// errKind is one documented kind of error with its ancestors.
type errKind struct {
	name      string
	zero      error
	make      func(msg string, n int) error
	as        func(error) bool
	ancestors []string
}

func asKind[E error](err error) bool {
	var e E
	return errors.As(err, &e)
}

var errKinds = []errKind{
	{"Repository", metadata.ErrRepository{}, func(m string, n int) error { return metadata.ErrRepository{Msg: m} }, asKind[metadata.ErrRepository], nil},
	{"UnsignedMetadata", metadata.ErrUnsignedMetadata{}, func(m string, n int) error { return metadata.ErrUnsignedMetadata{Msg: m} }, asKind[metadata.ErrUnsignedMetadata], []string{"Repository"}},
	{"BadVersionNumber", metadata.ErrBadVersionNumber{}, func(m string, n int) error { return metadata.ErrBadVersionNumber{Msg: m} }, asKind[metadata.ErrBadVersionNumber], []string{"Repository"}},
	{"EqualVersionNumber", metadata.ErrEqualVersionNumber{}, func(m string, n int) error { return metadata.ErrEqualVersionNumber{Msg: m} }, asKind[metadata.ErrEqualVersionNumber], []string{"Repository", "BadVersionNumber"}},
	{"ExpiredMetadata", metadata.ErrExpiredMetadata{}, func(m string, n int) error { return metadata.ErrExpiredMetadata{Msg: m} }, asKind[metadata.ErrExpiredMetadata], []string{"Repository"}},
	{"LengthOrHashMismatch", metadata.ErrLengthOrHashMismatch{}, func(m string, n int) error { return metadata.ErrLengthOrHashMismatch{Msg: m} }, asKind[metadata.ErrLengthOrHashMismatch], []string{"Repository"}},
	{"Download", metadata.ErrDownload{}, func(m string, n int) error { return metadata.ErrDownload{Msg: m} }, asKind[metadata.ErrDownload], nil},
	{"DownloadLengthMismatch", metadata.ErrDownloadLengthMismatch{}, func(m string, n int) error { return metadata.ErrDownloadLengthMismatch{Msg: m} }, asKind[metadata.ErrDownloadLengthMismatch], []string{"Download"}},
	{"DownloadHTTP", metadata.ErrDownloadHTTP{}, func(m string, n int) error { return metadata.ErrDownloadHTTP{StatusCode: n, URL: m} }, asKind[metadata.ErrDownloadHTTP], []string{"Download"}},
	{"Value", metadata.ErrValue{}, func(m string, n int) error { return metadata.ErrValue{Msg: m} }, asKind[metadata.ErrValue], nil},
	{"Type", metadata.ErrType{}, func(m string, n int) error { return metadata.ErrType{Msg: m} }, asKind[metadata.ErrType], nil},
	{"Runtime", metadata.ErrRuntime{}, func(m string, n int) error { return metadata.ErrRuntime{Msg: m} }, asKind[metadata.ErrRuntime], nil},
}

type wrapped struct {
	inner error
	multi bool
}

func (w wrapped) Error() string { return "wrapped" }
func (w wrapped) Unwrap() error { return w.inner }

func TestC23Hierarchy(t *testing.T) {
	run(t, 100000, func(t *rapid.T) {
		// one or several errors joined, then wrapped
		var parts []error
		var ks []errKind
		for i, n := 0, pick(t, "joined", 1, 1, 1, 1, 2, 3); i < n; i++ {
			k := errKinds[intn(t, "kind", 0, len(errKinds)-1)]
			msg := pick(t, "message", someStrings...)
			if chance(t, "message of a kind", 15) {
				// text that looks like another kind
				msg = errKinds[intn(t, "like", 0, len(errKinds)-1)].zero.Error()
			}
			e := k.make(msg, pick(t, "status", 0, 200, 403, 404, 500, -1))
			if !strings.Contains(e.Error(), msg) {
				t.Fatalf("%s: the message %q is lost: %q", k.name, msg, e.Error())
			}
			if e.Error() == "" {
				t.Fatalf("%s: empty text", k.name)
			}
			parts, ks = append(parts, e), append(ks, k)
		}
		err := parts[0]
		depth := intn(t, "depth", 0, 6)
		if len(parts) > 1 {
			err = errors.Join(parts...)
		}
		for i := 0; i < depth; i++ {
			switch intn(t, "wrap", 0, 3) {
			case 0:
				err = fmt.Errorf("context: %w", err)
			case 1:
				err = wrapped{inner: err}
			case 2:
				err = errors.Join(errors.New("unrelated"), err)
			case 3:
				err = fmt.Errorf("%w and %w", errors.New("unrelated"), err)
			}
		}
		want := map[string]bool{}
		for _, k := range ks {
			want[k.name] = true
			for _, a := range k.ancestors {
				want[a] = true
			}
		}
		for _, k := range errKinds {
			if got := errors.Is(err, k.zero); got != want[k.name] {
				t.Fatalf("%v of kinds %v matches %s: %v, want %v", err, names(ks), k.name, got, want[k.name])
			}
		}
		for i, k := range ks {
			if !k.as(err) {
				t.Fatalf("%v cannot be extracted as %s", err, k.name)
			}
			if !errors.Is(err, parts[i]) {
				t.Fatalf("%v does not match itself", parts[i])
			}
		}
		for _, e := range []error{errors.New("other"), nil, errors.New(parts[0].Error())} {
			if errors.Is(err, e) {
				t.Fatalf("%v matches %v", err, e)
			}
		}
		ev.New("C23Hierarchy").Add(err.Error(), depth, names(ks)).Class("kind "+ks[0].name).ClassIf(len(ks) > 1, "joined").ClassIf(depth > 2, "deep").
			NonTrivial(depth > 0 || err.Error() != ks[0].zero.Error()).Sample(map[string]any{"text": err.Error(), "depth": depth, "kinds": names(ks)}).End()
	})
}

func names(ks []errKind) string {
	var l []string
	for _, k := range ks {
		l = append(l, k.name)
	}
	return strings.Join(l, "+")
}

// ---- C25 ----

func TestC25Repository(t *testing.T) {
	run(t, 60000, func(t *rapid.T) {
		type model struct {
			root      *metadata.Metadata[metadata.RootType]
			timestamp *metadata.Metadata[metadata.TimestampType]
			snapshot  *metadata.Metadata[metadata.SnapshotType]
			targets   map[string]*metadata.Metadata[metadata.TargetsType]
		}
		roleNames := []string{"targets", "a", "A", "a/b", "", "root", "timestamp", "snapshot", "é", "e\u0301", " a", "a ", ".", "..", "targets.json", "*", "a\x00"}
		exp := time.Unix(1e9, 0).UTC()
		n := intn(t, "repositories", 1, 2)
		r1, r2 := repository.New(), repository.New()
		repos := []interface {
			Root() *metadata.Metadata[metadata.RootType]
			SetRoot(*metadata.Metadata[metadata.RootType])
			Timestamp() *metadata.Metadata[metadata.TimestampType]
			SetTimestamp(*metadata.Metadata[metadata.TimestampType])
			Snapshot() *metadata.Metadata[metadata.SnapshotType]
			SetSnapshot(*metadata.Metadata[metadata.SnapshotType])
			Targets(string) *metadata.Metadata[metadata.TargetsType]
			SetTargets(string, *metadata.Metadata[metadata.TargetsType])
		}{r1, r2}
		ms := []*model{{targets: map[string]*metadata.Metadata[metadata.TargetsType]{}}, {targets: map[string]*metadata.Metadata[metadata.TargetsType]{}}}
		// a few objects, so that the same one is stored in several places
		roots := []*metadata.Metadata[metadata.RootType]{metadata.Root(exp), metadata.Root(exp), nil}
		tss := []*metadata.Metadata[metadata.TimestampType]{metadata.Timestamp(exp), metadata.Timestamp(exp), nil}
		sns := []*metadata.Metadata[metadata.SnapshotType]{metadata.Snapshot(exp), metadata.Snapshot(exp), nil}
		tgs := []*metadata.Metadata[metadata.TargetsType]{metadata.Targets(exp), metadata.Targets(exp), metadata.Targets(exp), nil}
		// what they hold must not matter
		for i, x := range tgs[:3] {
			switch intn(t, "content", 0, 5) {
			case 0:
				x.Signed.Version = int64(intn(t, "version", 0, 3))
			case 1:
				x.Signed.Targets = nil
			case 2:
				x.Signed.Delegations = &metadata.Delegations{}
			case 3:
				x.Signatures = append(x.Signatures, metadata.Signature{KeyID: "k"})
			case 4:
				x.Signed.Type, x.Signed.Expires = pick(t, "type", "", "root"), exp.AddDate(i, 0, 0)
			}
		}
		for i := range 2 {
			switch intn(t, "content", 0, 3) {
			case 0:
				roots[i].Signed.Version, tss[i].Signed.Version, sns[i].Signed.Version = int64(intn(t, "version", 0, 3)), int64(intn(t, "version", 0, 3)), int64(intn(t, "version", 0, 3))
			case 1:
				roots[i].Signed.Roles, tss[i].Signed.Meta, sns[i].Signed.Meta = nil, nil, nil
			case 2:
				roots[i].Signed.Expires, tss[i].Signed.Expires, sns[i].Signed.Expires = exp.AddDate(-i-1, 0, 0), exp.AddDate(i, 0, 0), time.Time{}
			}
		}
		if intn(t, "many roles", 0, 299) == 299 {
			for i := 0; i < 300; i++ {
				roleNames = append(roleNames, fmt.Sprintf("bin-%03x", i))
			}
		}
		var hist []string
		check := func() {
			for i := range repos {
				r, m := repos[i], ms[i]
				if r.Root() != m.root || r.Timestamp() != m.timestamp || r.Snapshot() != m.snapshot {
					t.Fatalf("repository %d does not hold what was last stored after %s", i, strings.Join(hist, "; "))
				}
				for _, name := range roleNames {
					if r.Targets(name) != m.targets[name] {
						t.Fatalf("repository %d role %q does not hold what was last stored after %s", i, name, strings.Join(hist, "; "))
					}
				}
			}
		}
		check()
		stores := map[string]int{}
		for i, k := 0, intn(t, "stores", 1, 20)+150*(len(roleNames)/300); i < k; i++ {
			at := intn(t, "repository", 0, n-1)
			r, m := repos[at], ms[at]
			o := intn(t, "object", 0, 3)
			switch intn(t, "slot", 0, 6) {
			case 0:
				m.root = roots[o%3]
				r.SetRoot(m.root)
				hist = append(hist, fmt.Sprintf("%d root=%d", at, o%3))
			case 1:
				m.timestamp = tss[o%3]
				r.SetTimestamp(m.timestamp)
				hist = append(hist, fmt.Sprintf("%d timestamp=%d", at, o%3))
			case 2:
				m.snapshot = sns[o%3]
				r.SetSnapshot(m.snapshot)
				hist = append(hist, fmt.Sprintf("%d snapshot=%d", at, o%3))
			default:
				name := roleNames[intn(t, "name", 0, len(roleNames)-1)]
				m.targets[name] = tgs[o]
				r.SetTargets(name, tgs[o])
				stores[name]++
				hist = append(hist, fmt.Sprintf("%d %q=%d", at, name, o))
			}
			if chance(t, "change the stored object", 10) && roots[0] != nil {
				// the container holds the object itself
				roots[0].Signed.Version++
			}
			check()
		}
		over := false
		for _, c := range stores {
			over = over || c > 1
		}
		ev.New("C25Repository").Add(strings.Join(hist, ";")).ClassIf(over, "overwritten").ClassIf(n > 1, "two repositories").NonTrivial(len(hist) > 1).Sample(hist).End()
	})
}
