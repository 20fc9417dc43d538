package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"

	"verif/harness/ref"
)

// doc is a metadata object of any type under one interface.
type doc interface {
	Type() string
	FromBytes(b []byte) error
	FromFile(p string) error
	ToBytes(pretty bool) ([]byte, error)
	ToFile(p string, pretty bool) error
	Sign(s signature.Signer) (*metadata.Signature, error)
	ClearSignatures()
	Signatures() []metadata.Signature
	VerifyDelegate(role string, d any) error
	Expired(at time.Time) bool
	Any() any // the *metadata.Metadata[T]
}

type docOf[T metadata.Roles] struct {
	typ     string
	m       *metadata.Metadata[T]
	expired func(*T, time.Time) bool
}

func (d *docOf[T]) Type() string { return d.typ }
func (d *docOf[T]) FromBytes(b []byte) error {
	r, err := d.m.FromBytes(b)
	if (err == nil) != (r != nil) {
		return fmt.Errorf("FromBytes returned %v and %v", r, err)
	}
	if err == nil && r != d.m {
		// the result is what counts; it must equal the receiver
		if !reflect.DeepEqual(r, d.m) {
			panic("FromBytes returns something other than the receiver")
		}
	}
	return err
}
func (d *docOf[T]) FromFile(p string) error {
	r, err := d.m.FromFile(p)
	if (err == nil) != (r != nil) {
		return fmt.Errorf("FromFile returned %v and %v", r, err)
	}
	if err == nil && !reflect.DeepEqual(r, d.m) {
		panic("FromFile returns something other than the receiver")
	}
	return err
}
func (d *docOf[T]) ToBytes(pretty bool) ([]byte, error)                  { return d.m.ToBytes(pretty) }
func (d *docOf[T]) ToFile(p string, pretty bool) error                   { return d.m.ToFile(p, pretty) }
func (d *docOf[T]) Sign(s signature.Signer) (*metadata.Signature, error) { return d.m.Sign(s) }
func (d *docOf[T]) ClearSignatures()                                     { d.m.ClearSignatures() }
func (d *docOf[T]) Signatures() []metadata.Signature                     { return d.m.Signatures }
func (d *docOf[T]) VerifyDelegate(role string, x any) error              { return d.m.VerifyDelegate(role, x) }
func (d *docOf[T]) Expired(at time.Time) bool                            { return d.expired(&d.m.Signed, at) }
func (d *docOf[T]) Any() any                                             { return d.m }

// newDoc is an empty object of the type.
func newDoc(typ string) doc {
	switch typ {
	case "root":
		return &docOf[metadata.RootType]{typ, &metadata.Metadata[metadata.RootType]{}, (*metadata.RootType).IsExpired}
	case "timestamp":
		return &docOf[metadata.TimestampType]{typ, &metadata.Metadata[metadata.TimestampType]{}, (*metadata.TimestampType).IsExpired}
	case "snapshot":
		return &docOf[metadata.SnapshotType]{typ, &metadata.Metadata[metadata.SnapshotType]{}, (*metadata.SnapshotType).IsExpired}
	case "targets":
		return &docOf[metadata.TargetsType]{typ, &metadata.Metadata[metadata.TargetsType]{}, (*metadata.TargetsType).IsExpired}
	}
	panic("newDoc " + typ)
}

// madeDoc is a new object made by the library's own constructor.
func madeDoc(typ string, expires ...time.Time) doc {
	switch typ {
	case "root":
		return &docOf[metadata.RootType]{typ, metadata.Root(expires...), (*metadata.RootType).IsExpired}
	case "timestamp":
		return &docOf[metadata.TimestampType]{typ, metadata.Timestamp(expires...), (*metadata.TimestampType).IsExpired}
	case "snapshot":
		return &docOf[metadata.SnapshotType]{typ, metadata.Snapshot(expires...), (*metadata.SnapshotType).IsExpired}
	case "targets":
		return &docOf[metadata.TargetsType]{typ, metadata.Targets(expires...), (*metadata.TargetsType).IsExpired}
	}
	panic("madeDoc " + typ)
}

func parseDoc(typ string, b []byte) (doc, error) {
	d := newDoc(typ)
	return d, d.FromBytes(b)
}

// normalised parses the document once more with raw custom values brought into
// one form, for comparison by reflect.DeepEqual.
func normalised(d doc) any {
	if m, ok := d.Any().(*metadata.Metadata[metadata.TargetsType]); ok {
		for _, f := range m.Signed.Targets {
			if f != nil && f.Custom != nil {
				v, err := ref.Decode(*f.Custom)
				if err != nil {
					continue
				}
				r := json.RawMessage(ref.Encode(v))
				f.Custom = &r
			}
		}
	}
	return d.Any()
}

// delegator is a root whose role of the given name is held by the keys.
func delegatorFor(role string, threshold int, keys ...*ref.Key) *metadata.Metadata[metadata.RootType] {
	spec := ref.RoleSpec{Keys: keys, Threshold: threshold}
	b := ref.SignAll(ref.Root(1, ref.FarFuture, true, map[string]ref.RoleSpec{role: spec}))
	return must((&metadata.Metadata[metadata.RootType]{}).FromBytes(b))
}

// targetsDelegator is targets metadata delegating the role to the keys.
func targetsDelegator(role string, threshold int, keys ...*ref.Key) *metadata.Metadata[metadata.TargetsType] {
	ids := []any{}
	for _, k := range keys {
		ids = append(ids, k.ID())
	}
	d := ref.M{"keys": ref.KeysObj(keys), "roles": []any{ref.M{"name": role, "keyids": ids, "threshold": threshold, "terminating": false, "paths": []any{"*"}}}}
	b := ref.SignAll(ref.Targets(1, ref.FarFuture, ref.M{}, d))
	return must((&metadata.Metadata[metadata.TargetsType]{}).FromBytes(b))
}

// sutKey is the module's object for a key.
func sutKey(k *ref.Key) *metadata.Key {
	out := &metadata.Key{}
	if err := json.Unmarshal(ref.Encode(k.Doc()), out); err != nil {
		panic(err)
	}
	return out
}
