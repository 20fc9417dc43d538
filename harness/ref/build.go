package ref

// Builders for metadata documents.

const (
	FarFuture = "2999-01-01T00:00:00Z"
	FarPast   = "2001-01-01T00:00:00Z"
	Spec      = "1.0.31"
)

// RoleSpec is a key-id list with a threshold.
type RoleSpec struct {
	Keys      []*Key
	Threshold int
}

// Obj renders {"keyids": ..., "threshold": ...}.
func (r RoleSpec) Obj() M {
	ids := []any{}
	for _, k := range r.Keys {
		ids = append(ids, k.ID())
	}
	return M{"keyids": ids, "threshold": r.Threshold}
}

// KeysObj renders a key store.
func KeysObj(keys ...[]*Key) M {
	m := M{}
	for _, l := range keys {
		for _, k := range l {
			m[k.ID()] = k.Doc()
		}
	}
	return m
}

// Root builds a signed root object.
func Root(version int64, expires string, consistent bool, roles map[string]RoleSpec) M {
	rs, keys := M{}, M{}
	for n, r := range roles {
		rs[n] = r.Obj()
		for _, k := range r.Keys {
			keys[k.ID()] = k.Doc()
		}
	}
	return M{"_type": "root", "spec_version": Spec, "version": version, "expires": expires,
		"consistent_snapshot": consistent, "keys": keys, "roles": rs}
}

// Timestamp builds the signed part of a timestamp.
func Timestamp(version int64, expires string, snapMeta M) M {
	return M{"_type": "timestamp", "spec_version": Spec, "version": version, "expires": expires,
		"meta": M{"snapshot.json": snapMeta}}
}

// Snapshot builds the signed part of a snapshot; keys of meta are file names.
func Snapshot(version int64, expires string, meta M) M {
	return M{"_type": "snapshot", "spec_version": Spec, "version": version, "expires": expires, "meta": meta}
}

// Targets builds the signed part of targets metadata.
func Targets(version int64, expires string, targets M, delegations M) M {
	m := M{"_type": "targets", "spec_version": Spec, "version": version, "expires": expires, "targets": targets}
	if delegations != nil {
		m["delegations"] = delegations
	}
	return m
}

// SigObj renders a signature entry.
func SigObj(keyid string, sig []byte) M { return M{"keyid": keyid, "sig": Hex(sig)} }

// Envelope wraps a signed object with signatures.
func Envelope(signed M, sigs ...any) M {
	if sigs == nil {
		sigs = []any{}
	}
	return M{"signed": signed, "signatures": sigs}
}

// SignAll signs with each key once and returns the serialised document.
func SignAll(signed M, keys ...*Key) []byte {
	return Encode(SignEnv(signed, keys...))
}

// SignEnv signs with each distinct key once.
func SignEnv(signed M, keys ...*Key) M {
	payload := Canon(signed)
	sigs := []any{}
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k.ID()] {
			continue
		}
		seen[k.ID()] = true
		sigs = append(sigs, SigObj(k.ID(), k.Sign(payload)))
	}
	return Envelope(signed, sigs...)
}

// MetaFile builds a meta entry; nil data or flags leave length/hashes out.
func MetaFile(version int64, data []byte, length bool, algs ...string) M {
	m := M{"version": version}
	if length && len(data) > 0 {
		m["length"] = int64(len(data))
	}
	if len(algs) > 0 {
		m["hashes"] = Hashes(data, algs...)
	}
	return m
}

// TargetFile builds a target description.
func TargetFile(data []byte, algs ...string) M {
	return M{"length": int64(len(data)), "hashes": Hashes(data, algs...)}
}
