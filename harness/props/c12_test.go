package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// richEnv wraps the signed part with signatures of the keys and others.
func richEnv(t *rapid.T, o richOpt, signed ref.M, keys []*ref.Key) ref.M {
	sigs := []any{}
	if !o.floats {
		payload := ref.Canon(signed)
		for _, k := range keys {
			sigs = append(sigs, o.with(t, "signature", ref.SigObj(k.ID(), k.Sign(payload))))
		}
	}
	for i, n := 0, intn(t, "other signatures", 0, 2); i < n; i++ {
		id := pick(t, "signer", "", "somebody", "é", ref.Hex(ref.SHA256([]byte("x")))) + fmt.Sprint(i)
		sigs = append(sigs, o.with(t, "signature", ref.M{"keyid": id, "sig": pick(t, "sig", "", "00", "abcdef")}))
	}
	if len(sigs) > 1 && chance(t, "reverse", 30) {
		sigs[0], sigs[len(sigs)-1] = sigs[len(sigs)-1], sigs[0]
	}
	return o.with(t, "envelope", ref.M{"signed": signed, "signatures": sigs})
}

func TestC12Documents(t *testing.T) {
	run(t, 700, func(t *rapid.T) {
		o := richOpt{extras: pick(t, "extras", 0, 15, 40), floats: chance(t, "floats", 15)}
		typ := pick(t, "type", append([]string{"targets", "targets"}, docTypes...)...)
		signed := richDoc(t, typ, o)
		if !o.floats {
			signed = onlyInts(ref.CloneM(signed))
		}
		if chance(t, "large", 2) {
			// several blocks of every buffer in between
			n := pick(t, "size", 5000, 20000, 35000, 70000)
			signed["x-large"] = strings.Repeat(pick(t, "filling", "x", "é", "\\\"", "<"), n)
		}
		keys := keySet(t, "signers", 1, 2)
		env := ref.CloneM(richEnv(t, o, signed, keys))
		in := reformat(t, env)
		if len(in) < 5000 {
			t.Logf("input %s", in)
		}
		rec := ev.New("C12Documents").Add(in)
		rec.Class("type "+typ).ClassIf(o.extras > 0, "unrecognised fields").ClassIf(o.floats, "fractions").ClassIf(len(in) > 32<<10, "more than 32 kB").
			ClassIf(bytes.Contains(in, []byte("custom")), "custom").ClassIf(bytes.Contains(in, []byte("succinct_roles")), "succinct").
			ClassIf(bytes.Contains(in, []byte("path_hash_prefixes")), "hash prefixes")
		if rec.Wants() && len(in) < 5000 {
			rec.Sample(map[string]any{"document": string(in)})
		}
		rec.NonTrivial(len(in) > 150).End()

		d, err := parseDoc(typ, in)
		if err != nil {
			t.Fatalf("valid metadata is refused: %v", err)
		}
		delegator := delegatorFor("r", len(keys), keys...)
		check := func(what string, b []byte, err error) doc {
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			v, err := ref.Decode(b)
			if err != nil {
				t.Fatalf("%s is not JSON: %v\n%s", what, err, b)
			}
			if diff := sameJSON(env, v); diff != "" {
				t.Fatalf("%s is not equivalent to the input: %s\n%s", what, diff, b)
			}
			d2, err := parseDoc(typ, b)
			if err != nil {
				t.Fatalf("%s does not parse: %v", what, err)
			}
			fresh, _ := parseDoc(typ, in)
			if !reflect.DeepEqual(normalised(fresh), normalised(d2)) {
				t.Fatalf("parsing %s gives another object:\n%+v\n%+v", what, fresh.Any(), d2.Any())
			}
			if !o.floats {
				if err := delegator.VerifyDelegate("r", d2.Any()); err != nil {
					t.Fatalf("the signatures do not survive %s: %v", what, err)
				}
			}
			return must(parseDoc(typ, b)) // comparing changes the objects
		}
		if !o.floats {
			if err := delegator.VerifyDelegate("r", d.Any()); err != nil {
				t.Fatalf("the signatures of the input do not verify: %v", err)
			}
		}
		compact, err := d.ToBytes(false)
		d2 := check("compact output", compact, err)
		pretty, err := d.ToBytes(true)
		d3 := check("indented output", pretty, err)
		for _, x := range []doc{d, d2, d3} {
			for _, p := range []bool{false, true} {
				b := must(x.ToBytes(p))
				if want := map[bool][]byte{false: compact, true: pretty}[p]; !bytes.Equal(b, want) {
					t.Fatalf("serialising again gives other bytes:\n%s\n%s", want, b)
				}
			}
		}
		// the same through files
		dir := newDir()
		defer rmDir(dir)
		for _, p := range []bool{false, true} {
			f := filepath.Join(dir, "doc.json")
			if chance(t, "existing file", 50) {
				os.WriteFile(f, bytes.Repeat([]byte("old content "), 400), 0o644)
			}
			if err := d.ToFile(f, p); err != nil {
				t.Fatal(err)
			}
			b := must(os.ReadFile(f))
			check("the file", b, nil)
			if want := map[bool][]byte{false: compact, true: pretty}[p]; !bytes.Equal(b, want) {
				t.Fatalf("the file differs from the serialised bytes:\n%s\n%s", want, b)
			}
			x := newDoc(typ)
			if chance(t, "used object", 50) {
				// the object held another document before
				x.FromBytes(ref.Encode(ref.M{"signed": richDoc(t, typ, richOpt{extras: 60}), "signatures": []any{}, "left": "over"}))
			}
			os.WriteFile(f, in, 0o644)
			if err := x.FromFile(f); err != nil {
				t.Fatalf("the file is refused: %v", err)
			}
			fresh, _ := parseDoc(typ, in)
			if !reflect.DeepEqual(normalised(fresh), normalised(x)) {
				t.Fatalf("reading the file gives another object:\n%+v\n%+v", fresh.Any(), x.Any())
			}
		}
	})
}

// Documents put together through the API survive the same cycle.
func TestC12Built(t *testing.T) {
	run(t, 2500, func(t *rapid.T) {
		typ := pick(t, "type", docTypes...)
		when := []time.Time{}
		if chance(t, "expiry", 80) {
			when = append(when, time.Date(intn(t, "year", 1, 9999), time.Month(intn(t, "month", 1, 12)), intn(t, "day", 1, 28), 1, 2, 3, pick(t, "ns", 0, 0, 1, 123456789), time.UTC))
		}
		d := madeDoc(typ, when...)
		extra := func() map[string]any {
			if chance(t, "extra", 40) {
				return map[string]any{pick(t, "name", "x", "é", "<&>", "a b"): pick[any](t, "value", "s", float64(1), true, nil, map[string]any{"k": []any{"v", float64(2)}})}
			}
			if chance(t, "empty", 50) {
				return map[string]any{}
			}
			return nil
		}
		want := ref.M{"_type": typ, "spec_version": metadata.SPECIFICATION_VERSION, "version": json.Number("1")}
		add := func(m ref.M, e map[string]any) ref.M {
			for k, v := range e {
				m[k] = ref.Clone(v)
			}
			return m
		}
		var e map[string]any
		switch m := d.Any().(type) {
		case *metadata.Metadata[metadata.RootType]:
			keys, roles := ref.M{}, ref.M{}
			for _, r := range docTypes {
				ids := []any{}
				for i, n := 0, intn(t, "keys", 0, 2); i < n; i++ {
					k := ref.Ed(intn(t, "key", 0, 9))
					ids = appendNew(ids, k.ID())
					keys[k.ID()] = k.Doc()
					if err := m.Signed.AddKey(sutKey(k), r); err != nil {
						t.Fatal(err)
					}
				}
				x := extra()
				m.Signed.Roles[r].UnrecognizedFields = x
				roles[r] = add(ref.M{"keyids": ids, "threshold": 1}, x)
			}
			m.Signed.ConsistentSnapshot = chance(t, "consistent", 50)
			want["consistent_snapshot"], want["keys"], want["roles"] = m.Signed.ConsistentSnapshot, keys, roles
			e = extra()
			m.Signed.UnrecognizedFields = e
		case *metadata.Metadata[metadata.SnapshotType]:
			meta := ref.M{"targets.json": ref.M{"version": 1}}
			fillMeta(t, m.Signed.Meta, meta, extra, add)
			want["meta"] = meta
			e = extra()
			m.Signed.UnrecognizedFields = e
		case *metadata.Metadata[metadata.TimestampType]:
			meta := ref.M{"snapshot.json": ref.M{"version": 1}}
			fillMeta(t, m.Signed.Meta, meta, extra, add)
			want["meta"] = meta
			e = extra()
			m.Signed.UnrecognizedFields = e
		case *metadata.Metadata[metadata.TargetsType]:
			tg := ref.M{}
			for i, n := 0, intn(t, "targets", 0, 3); i < n; i++ {
				p := pick(t, "path", "a", "b/c", "é", "a b")
				data := []byte(pick(t, "data", "", "x", "some data"))
				f := must(metadata.TargetFile().FromBytes(p, data, "sha256", "sha512"))
				x := extra()
				f.UnrecognizedFields = x
				w := add(ref.TargetFile(data, "sha256", "sha512"), x)
				if chance(t, "custom", 40) {
					r := json.RawMessage(` { "k" : [ 1 , "<" ] } `)
					f.Custom = &r
					w["custom"] = ref.M{"k": []any{1, "<"}}
				}
				m.Signed.Targets[p] = f
				tg[p] = w
			}
			want["targets"] = tg
			if chance(t, "delegations", 60) {
				k := ref.Ed(intn(t, "key", 0, 9))
				m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
				dx, rx := extra(), extra()
				m.Signed.Delegations.UnrecognizedFields = dx
				w := add(ref.M{"keys": ref.M{k.ID(): k.Doc()}}, dx)
				if chance(t, "succinct", 40) {
					m.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 8, NamePrefix: "bin", UnrecognizedFields: rx}
					w["succinct_roles"] = add(ref.M{"keyids": []any{k.ID()}, "threshold": 1, "bit_length": 8, "name_prefix": "bin"}, rx)
				} else {
					dr := metadata.DelegatedRole{Name: "r", KeyIDs: []string{}, Threshold: 1, Terminating: true, UnrecognizedFields: rx}
					wr := ref.M{"name": "r", "keyids": []any{k.ID()}, "threshold": 1, "terminating": true}
					switch intn(t, "paths", 0, 3) {
					case 0:
						dr.Paths = []string{"a/*"}
						wr["paths"] = []any{"a/*"}
					case 1:
						dr.PathHashPrefixes = []string{"ab"}
						wr["path_hash_prefixes"] = []any{"ab"}
					case 2:
						dr.Paths = []string{}
						wr["paths"] = []any{}
					}
					m.Signed.Delegations.Roles = []metadata.DelegatedRole{dr}
					w["roles"] = []any{add(wr, rx)}
				}
				if err := m.Signed.AddKey(sutKey(k), "r"); err != nil {
					t.Fatal(err)
				}
				want["delegations"] = w
			}
			e = extra()
			m.Signed.UnrecognizedFields = e
		}
		add(want, e)
		out, err := d.ToBytes(chance(t, "pretty", 50))
		if err != nil {
			t.Fatal(err)
		}
		v, err := ref.Decode(out)
		if err != nil {
			t.Fatal(err)
		}
		got := ref.Obj(ref.Obj(v)["signed"])
		exp, err := time.Parse(time.RFC3339Nano, ref.Str(got["expires"]))
		if err != nil {
			t.Fatalf("expires %v", got["expires"])
		}
		if len(when) > 0 && !exp.Equal(when[0]) {
			t.Fatalf("expires %v, want %v", exp, when[0])
		}
		if len(when) == 0 && (time.Since(exp) > 5*time.Minute || time.Since(exp) < -5*time.Minute) {
			t.Fatalf("expires %v without a given expiry", exp)
		}
		want["expires"] = got["expires"]
		if diff := sameJSON(ref.Clone(ref.M{"signed": want, "signatures": []any{}}), v); diff != "" {
			t.Fatalf("built metadata is serialised wrongly: %s\n%s", diff, out)
		}
		d2, err := parseDoc(typ, out)
		if err != nil {
			t.Fatalf("built metadata does not parse: %v\n%s", err, out)
		}
		b1, b2 := must(d.ToBytes(false)), must(d2.ToBytes(false))
		if !bytes.Equal(b1, b2) {
			t.Fatalf("serialising the parsed object gives\n%s\ninstead of\n%s", b2, b1)
		}
		rec := ev.New("C12Built").Add(b1).Class("type " + typ)
		rec.NonTrivial(len(want) > 5 || len(out) > 200).Sample(string(b1)).End()
	})
}

func appendNew(l []any, v any) []any {
	for _, x := range l {
		if x == v {
			return l
		}
	}
	return append(l, v)
}

func fillMeta(t *rapid.T, m map[string]*metadata.MetaFiles, want ref.M, extra func() map[string]any, add func(ref.M, map[string]any) ref.M) {
	for i, n := 0, intn(t, "entries", 0, 3); i < n; i++ {
		name := pick(t, "name", "a.json", "b.json", "é.json", "targets.json", "snapshot.json")
		ver := pick[int64](t, "version", 1, 2, 1<<62, 0, -3)
		f := metadata.MetaFile(ver)
		if ver < 1 {
			ver = 1
		}
		w := ref.M{"version": ver}
		if chance(t, "length", 50) {
			f.Length = 17
			w["length"] = 17
		}
		if chance(t, "hashes", 50) {
			f.Hashes["sha256"] = ref.SHA256([]byte("x"))
			w["hashes"] = ref.Hashes([]byte("x"), "sha256")
		}
		x := extra()
		f.UnrecognizedFields = x
		m[name] = f
		want[name] = add(w, x)
	}
}

// Two listed findings: the exact inputs.
func TestC12Findings(t *testing.T) {
	once(t, func(t *testing.T) {
		in := `{"signed":{"_type":"timestamp","spec_version":"1.0","version":1,"expires":"2030-01-01T00:00:00Z","meta":{"snapshot.json":{"version":1}},"x":9007199254740993},"signatures":[]}`
		d, err := parseDoc("timestamp", []byte(in))
		if err != nil {
			t.Fatal(err)
		}
		v, _ := ref.Decode(must(d.ToBytes(false)))
		w, _ := ref.Decode([]byte(in))
		if diff := sameJSON(w, v); diff == "signed.x.9007199254740993 / 9007199254740992" {
			ev.Known("[big-integers] an unrecognised integer that a float64 cannot hold exactly (9007199254740993) is serialised as another number")
		} else if diff != "" {
			t.Fatalf("round trip of an unrecognised large integer: %s", diff)
		}
		in = `{"signed":{"_type":"timestamp","spec_version":"1.0","version":1,"expires":"2030-01-01T00:00:00Z","meta":{"snapshot.json":{"version":1}},"Version":2},"signatures":[]}`
		d, err = parseDoc("timestamp", []byte(in))
		if err != nil {
			t.Fatal(err)
		}
		v, _ = ref.Decode(must(d.ToBytes(false)))
		w, _ = ref.Decode([]byte(in))
		if diff := sameJSON(w, v); diff == "version.1 / 2" || diff == "signed.version.1 / 2" {
			ev.Known("[case-insensitive] an unrecognised field that differs from a known one only in case (\"Version\") overwrites it")
		} else if diff != "" {
			t.Fatalf("round trip of a field differing in case: %s", diff)
		}
		ev.New("C12Findings").Add("findings").NonTrivial(true).End()
	})
}
