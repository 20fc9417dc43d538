package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// plainRepo is a minimal deterministic repository.
func plainRepo(consistent bool) *ref.Repo {
	top := map[string]ref.RoleSpec{}
	for i, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
	}
	r := ref.NewRepo(top, consistent)
	r.Publish()
	return r
}

// parseTarget makes a target description for a path out of its JSON form.
func parseTarget(path string, desc ref.M) (*metadata.TargetFiles, error) {
	raw := ref.SignAll(ref.Targets(1, ref.FarFuture, ref.M{path: desc}, nil))
	m, err := metadata.Targets().FromBytes(raw)
	if err != nil {
		return nil, err
	}
	return m.Signed.Targets[path], nil
}

// describeBytes draws a description of data, possibly not matching it.
func describeBytes(t *rapid.T, data []byte) (ref.M, string) {
	algs := pick(t, "algs", []string{"sha256"}, []string{"sha512"}, []string{"sha256", "sha512"})
	d := ref.TargetFile(data, algs...)
	how := ""
	if chance(t, "custom", 20) {
		d["custom"] = ref.M{"k": "v"}
	}
	h := ref.Obj(d["hashes"])
	switch intn(t, "lie", 0, 13) {
	case 0:
		l := int64(len(data)) + int64(pick(t, "dl", 1, -1, 7))
		if l >= 0 {
			d["length"] = l
			how = "other length"
		}
	case 1:
		a := algs[intn(t, "alg", 0, len(algs)-1)]
		s := []byte(ref.Str(h[a]))
		i := intn(t, "digit", 0, len(s)-1)
		s[i] = "1032547698badcfe"[strings.IndexByte("0123456789abcdef", s[i])]
		h[a] = string(s)
		how = "other " + a
	case 2:
		h["md5"] = "00112233445566778899aabbccddeeff"
		how = "unknown algorithm"
	case 3:
		a := algs[intn(t, "alg", 0, len(algs)-1)]
		h[a] = ref.Str(h[a])[:2*intn(t, "hlen", 0, 10)]
		how = "short " + a
	}
	return d, how
}

func fits(d ref.M, data []byte) bool {
	return ref.Int(d["length"]) == int64(len(data)) && ref.Matches(ref.M{"hashes": d["hashes"]}, data)
}

// alter draws bytes near data.
func alter(t *rapid.T, data []byte) []byte {
	switch intn(t, "alter", 0, 11) {
	case 0:
		return append(append([]byte{}, data...), byte(intn(t, "more", 0, 255)))
	case 1:
		if len(data) > 0 {
			return data[:len(data)-1]
		}
	case 2:
		if len(data) > 0 {
			d := append([]byte{}, data...)
			d[intn(t, "pos", 0, len(d)-1)] ^= 1 << intn(t, "bit", 0, 7)
			return d
		}
	case 3:
		return []byte{}
	case 4:
		return append([]byte{0}, data...)
	}
	return data
}

var oddPaths = []string{"f", "a/b", "a%2Fb", "a b", "a+b", "a%20b", "a\\b", "ü", "%C3%BC", "A/B", "a/b/", "/a/b", "a//b", "./a/b", "a/../b", "..a", "...", "a?b", "a#b", "a&b", "a=b", "%", "%%", "a.json", ".hidden", "\"q\"", "a:b", "~", "-", "a\tb", "a\nb"}

// TestC09Targets: downloads and cache look-ups of generated descriptions.
func TestC09Targets(t *testing.T) {
	type setup struct{ r *ref.Repo }
	repos := map[bool]*ref.Repo{true: plainRepo(true), false: plainRepo(false)}
	run(t, 500, func(t *rapid.T) {
		cons := chance(t, "consistent", 50)
		r := repos[cons]
		cfg := baseConfig()
		cfg.Prefix = chance(t, "prefix", 50)
		base := newDir()
		defer rmDir(base)
		files := filepath.Join(base, "files")
		var served ref.Resp
		f := newFetcher(func(url string, max int64, n int) ref.Resp {
			if strings.HasPrefix(url, metaURL) {
				return r.Serve(metaURL, targetURL, url)
			}
			return served
		})
		f.sloppy = chance(t, "sloppy fetcher", 50)
		if chance(t, "no base address", 10) {
			cfg.TargetURL = ""
		}
		cfg.DisableCache = chance(t, "no cache", 12)
		// the folder may be given relative to the working directory
		filesAs := files
		if chance(t, "relative folder", 15) {
			wd := pick(t, "working directory", files, base, filepath.Join(base, "wd"), filepath.Join(files, "deep"))
			must(0, os.MkdirAll(files, 0o755))
			must(0, os.MkdirAll(wd, 0o755))
			cwd := must(os.Getwd())
			must(0, os.Chdir(wd))
			defer os.Chdir(cwd)
			filesAs = must(filepath.Rel(wd, files)) + pick(t, "folder slash", "", "/", "/.")
		}
		up, err := newUpdater(clientOpt{cfg: cfg, root: r.Roots[1], metaDir: filepath.Join(base, "meta"), targetsDir: filesAs, fetch: f})
		if err == nil && chance(t, "refreshed", 70) {
			err = up.Refresh()
		}
		if err != nil {
			t.Fatalf("cannot set up a client: %v", err)
		}
		rec := ev.New("C09Targets").ClassIf(filesAs != files, "relative folder")
		var hist []string
		fail := func(format string, a ...any) {
			t.Helper()
			t.Fatalf(format+"\n  %s", append(a, strings.Join(hist, "\n  "))...)
		}
		tracked := map[string][]byte{} // absolute name -> expected content
		for i, n := 0, intn(t, "ops", 1, 6); i < n; i++ {
			path := pick(t, "path", oddPaths...)
			size := pick(t, "size", 0, 1, 5, 64, 1000)
			data := rapid.SliceOfN(rapid.Byte(), size, size).Draw(t, "data")
			if size > 1 && chance(t, "large", 3) {
				data = bytes.Repeat(data, pick(t, "times", 70_000, 300_000, 1_500_000)/size+1)
				rec.Class("large target")
			}
			desc, lie := describeBytes(t, data)
			ti, err := parseTarget(path, desc)
			if err != nil {
				fail("cannot parse a description %s: %v", ref.Encode(desc), err)
			}
			explicit := ""
			where := filepath.Join(files, ref.QueryEscape(path))
			if chance(t, "explicit", 35) {
				explicit = filepath.Join(base, pick(t, "out", "out1", "out two", "files/x"))
				where = explicit
			}
			named := where // as the client calls it
			if explicit == "" && filesAs != files {
				named = filepath.Join(filesAs, ref.QueryEscape(path))
			}
			if explicit != "" && filesAs == files && chance(t, "relative", 30) {
				// relative to the working directory, wherever that is
				wd := filepath.Join(base, pick(t, "wd", ".", "wd", "wd/deep"))
				os.MkdirAll(wd, 0o755)
				explicit = must(filepath.Rel(wd, where))
				named = explicit
				cwd := must(os.Getwd())
				must(0, os.Chdir(wd))
				defer os.Chdir(cwd)
				rec.Class("relative explicit path")
			}
			if explicit != "" && named == where && chance(t, "roundabout", 30) {
				// another way to write the path of the same file
				rel := must(filepath.Rel(base, where))
				switch intn(t, "way", 0, 3) {
				case 0:
					explicit = base + "/./" + rel
				case 1:
					explicit = base + "//" + rel
				case 2:
					os.MkdirAll(filepath.Join(base, "d1", "d2"), 0o755)
					explicit = base + "/d1/d2/../../" + rel
				case 3:
					// through a link to a directory elsewhere: .. is the parent of that one
					os.MkdirAll(filepath.Join(base, "d1", "d2"), 0o755)
					side := newDir()
					defer rmDir(side)
					must(0, os.Symlink(filepath.Join(base, "d1", "d2"), filepath.Join(side, "link")))
					explicit = side + "/link/../" + filepath.Base(where)
					where = filepath.Join(base, "d1", filepath.Base(where))
				}
				named = explicit
				rec.Class("roundabout explicit path")
			}
			// an existing local file
			readOnly, unreadable := false, false
			switch intn(t, "existing", 0, 4) {
			case 0:
				os.Remove(where)
				tracked[where] = alter(t, data)
				os.MkdirAll(filepath.Dir(where), 0o755)
				must(0, os.WriteFile(where, tracked[where], 0o644))
				if os.Geteuid() != 0 && chance(t, "read-only", 20) {
					must(0, os.Chmod(where, 0o444))
					readOnly = true
				} else if os.Geteuid() != 0 && chance(t, "unreadable", 15) {
					unreadable = true
				}
			case 1:
				os.Remove(where)
				delete(tracked, where)
			}
			if fi, err := os.Stat(where); err == nil {
				readOnly = fi.Mode().Perm()&0o200 == 0
			}
			snapshot := func() string { return fmt.Sprint(readTree(base)) }
			matches := fits(desc, data)
			_ = matches
			if chance(t, "find", 60) {
				have, exists := tracked[where]
				want := exists && fits(desc, have) && !cfg.DisableCache && !unreadable
				before := snapshot()
				if unreadable {
					must(0, os.Chmod(where, 0o200))
					rec.Class("unreadable local file")
				}
				var p string
				var got []byte
				if pn := guard(func() { p, got, err = up.FindCachedTarget(ti, explicit) }); pn != "" {
					fail("FindCachedTarget: %s", pn)
				}
				if unreadable {
					must(0, os.Chmod(where, 0o644))
				}
				hist = append(hist, fmt.Sprintf("find %q explicit=%v lie=%q exists=%v -> %q %s", path, explicit != "", lie, exists, p, errStr(err)))
				if err != nil {
					fail("FindCachedTarget(%q) reports an error: %v", path, err)
				}
				if want && (p != named || string(got) != string(have)) {
					fail("FindCachedTarget(%q) = %q (%d bytes), want %q", path, p, len(got), named)
				}
				if !want && (p != "" || got != nil) {
					fail("FindCachedTarget(%q) = %q although the file does not match (or caching is off) %s", path, p, ref.Encode(desc))
				}
				if snapshot() != before {
					fail("FindCachedTarget(%q) changed files", path)
				}
				rec.ClassIf(want, "cached target found").ClassIf(!want && exists, "mismatching local file").ClassIf(!exists, "no local file")
			}
			if chance(t, "download", 70) {
				served = ref.Resp{Data: alter(t, data)}
				if chance(t, "status", 12) {
					served = ref.Resp{Status: pick(t, "code", 404, 500, -1)}
				}
				from := pick(t, "base", "", targetURL, targetURL+"/")
				unaddressed := from == "" && cfg.TargetURL == ""
				ok := served.Status == 0 && fits(desc, served.Data) && !unaddressed
				before := readTree(base)
				var p string
				var got []byte
				asked := len(f.log)
				if pn := guard(func() { p, got, err = up.DownloadTarget(ti, explicit, from) }); pn != "" {
					fail("DownloadTarget: %s", pn)
				}
				if unaddressed && len(f.log) != asked {
					fail("DownloadTarget without any base address requested %s", f.log[asked].URL)
				}
				rec.ClassIf(unaddressed, "no base address at all").ClassIf(cfg.DisableCache, "caching off")
				hist = append(hist, fmt.Sprintf("download %q explicit=%v lie=%q served %d bytes status %d fits=%v -> %s", path, explicit != "", lie, len(served.Data), served.Status, ok, errStr(err)))
				after := readTree(base)
				if ok && err != nil && readOnly && !cfg.DisableCache {
					// the matching bytes cannot be put there
					ok = false
					rec.Class("local file is read-only")
				}
				if ok != (err == nil) {
					fail("DownloadTarget(%q) = %v, but the served bytes match: %v\ndescription %s", path, err, ok, ref.Encode(desc))
				}
				if ok {
					if p != named || string(got) != string(served.Data) {
						fail("DownloadTarget(%q) returned %q and %d bytes, want %q", path, p, len(got), named)
					}
					rel, _ := filepath.Rel(base, where)
					if !cfg.DisableCache {
						before[rel] = served.Data
						tracked[where] = served.Data
					}
				} else if got != nil || p != "" {
					fail("DownloadTarget(%q) returned data with an error", path)
				}
				if d := diffMaps(after, before); d != "" {
					fail("after DownloadTarget(%q) (matching: %v) files are wrong: %s", path, ok, d)
				}
				if err != nil && !unaddressed && !(readOnly && fits(desc, served.Data)) && served.Status == 0 && int64(len(served.Data)) <= ref.Int(desc["length"]) && !errors.Is(err, metadata.ErrLengthOrHashMismatch{}) {
					fail("a mismatching download is reported as %T %v", err, err)
				}
				rec.ClassIf(ok, "download succeeds").ClassIf(!ok, "download refused").ClassIf(!ok && lie != "", "refused: "+lie)
				rec.NonTrivial(true)
			}
			rec.Add(path, string(data), ref.Encode(desc), explicit, served.Data)
		}
		if rec.Wants() {
			rec.Sample(hist)
		}
		rec.End()
	})
}

// TestC09NoFolder: without a targets folder a client keeps target files only
// where it is told to, and never writes anywhere else.
func TestC09NoFolder(t *testing.T) {
	repos := map[bool]*ref.Repo{true: plainRepo(true), false: plainRepo(false)}
	run(t, 60, func(t *rapid.T) {
		r := repos[chance(t, "consistent", 50)]
		base := newDir()
		defer rmDir(base)
		cfg := baseConfig()
		cfg.DisableCache = chance(t, "no cache", 30)
		meta := filepath.Join(base, "meta")
		path := pick(t, "path", oddPaths...)
		data := []byte(pick(t, "data", "", "content", "something longer"))
		desc := ref.TargetFile(data, "sha256")
		f := newFetcher(func(url string, max int64, n int) ref.Resp {
			if strings.HasPrefix(url, metaURL) {
				return r.Serve(metaURL, targetURL, url)
			}
			return ref.Resp{Data: data}
		})
		cwd := must(os.Getwd())
		must(0, os.Chdir(base))
		defer os.Chdir(cwd)
		up, err := newUpdater(clientOpt{cfg: cfg, root: r.Roots[1], metaDir: meta, targetsDir: "", fetch: f})
		if err != nil {
			if d := fmt.Sprint(readTree(base)); d != fmt.Sprint(map[string][]byte{}) && strings.Contains(d, "content") {
				t.Fatalf("New failed with %v and left %s", err, d)
			}
			ev.New("C09NoFolder").Add(path, data).Class("refused by New").End()
			return
		}
		ti := must(parseTarget(path, desc))
		before := readTree(base)
		stray := func(what string, keep string) {
			t.Helper()
			after := readTree(base)
			if keep != "" {
				before[keep] = data
			}
			if d := diffMaps(after, before); d != "" {
				t.Fatalf("after %s of %q without a targets folder files are wrong: %s", what, path, d)
			}
		}
		for i, n := 0, intn(t, "ops", 1, 4); i < n; i++ {
			explicit := ""
			if chance(t, "explicit", 40) {
				explicit = filepath.Join(base, "out")
			}
			_, had := before["out"]
			had = had && explicit != ""
			var p string
			var got []byte
			if chance(t, "find", 40) {
				// what is in the working directory is not its cache
				if pn := guard(func() { p, got, err = up.FindCachedTarget(ti, explicit) }); pn != "" {
					t.Fatalf("FindCachedTarget: %s", pn)
				}
				if (p != "") != (had && !cfg.DisableCache) {
					t.Fatalf("FindCachedTarget(%q, %q) = %q, %v", path, explicit, p, err)
				}
				stray("FindCachedTarget", "")
				continue
			}
			if pn := guard(func() { p, got, err = up.DownloadTarget(ti, explicit, "") }); pn != "" {
				t.Fatalf("DownloadTarget: %s", pn)
			}
			switch {
			case explicit == "" && !cfg.DisableCache && err == nil:
				t.Fatalf("DownloadTarget(%q) has nowhere to put the file, and reports success at %q", path, p)
			case (explicit != "" || cfg.DisableCache) && (err != nil || string(got) != string(data)):
				t.Fatalf("DownloadTarget(%q, %q) gives %q, %v", path, explicit, got, err)
			}
			if explicit != "" && !cfg.DisableCache {
				stray("DownloadTarget", "out")
			} else {
				stray("DownloadTarget", "")
			}
		}
		ev.New("C09NoFolder").Add(path, data, cfg.DisableCache).ClassIf(cfg.DisableCache, "caching off").NonTrivial(true).Sample(path).End()
	})
}

// TestC09Distinct: distinct target paths never share a local file.
func TestC09Distinct(t *testing.T) {
	r := plainRepo(false)
	run(t, 300, func(t *rapid.T) {
		base := newDir()
		defer rmDir(base)
		files := filepath.Join(base, "files")
		byURL := map[string][]byte{}
		f := newFetcher(func(url string, max int64, n int) ref.Resp {
			if b, ok := byURL[url]; ok {
				return ref.Resp{Data: b}
			}
			return r.Serve(metaURL, targetURL, url)
		})
		up, err := newUpdater(clientOpt{cfg: baseConfig(), root: r.Roots[1], metaDir: filepath.Join(base, "meta"), targetsDir: files, fetch: f})
		if err != nil {
			t.Fatalf("cannot set up a client: %v", err)
		}
		paths := map[string]bool{}
		p0 := nastyName(t, "p0")
		paths[p0] = true
		for i, n := 0, intn(t, "n", 1, 5); i < n; i++ {
			p := nastyName(t, "p")
			if chance(t, "variant", 60) {
				p = variant(t, p0)
			}
			if storable(p) {
				paths[p] = true
			}
		}
		if !storable(p0) {
			delete(paths, p0)
		}
		got := map[string]string{}
		infos := map[string]*metadata.TargetFiles{}
		for _, p := range sortedStrs(paths) {
			b := []byte("content of " + p)
			byURL[targetURL+"/"+p] = b
			ti, err := parseTarget(p, ref.TargetFile(b, "sha256"))
			if err != nil {
				t.Fatalf("description of %q: %v", p, err)
			}
			ti0, _ := parseTarget(p, ref.TargetFile(b, "sha256"))
			infos[p] = ti0
			file, _, err := up.DownloadTarget(ti, "", "")
			if err != nil {
				t.Fatalf("DownloadTarget(%q): %v", p, err)
			}
			if o, dup := got[file]; dup {
				t.Fatalf("targets %q and %q share the local file %s", o, p, file)
			}
			if rel, err := filepath.Rel(files, file); err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
				t.Fatalf("target %q is stored outside the targets directory: %s", p, file)
			}
			got[file] = p
		}
		for p, ti := range infos {
			_, b, err := up.FindCachedTarget(ti, "")
			if err != nil || string(b) != "content of "+p {
				t.Fatalf("after all downloads the local file of %q holds %q (%v); paths %q", p, b, err, sortedStrs(paths))
			}
		}
		rec := ev.New("C09Distinct").Add(sortedStrs(paths)).NonTrivial(len(paths) > 1)
		rec.ClassIf(len(paths) > 1, "several paths")
		rec.Sample(sortedStrs(paths)).End()
	})
}

// storable excludes the three names that no file system can hold as a file.
func storable(p string) bool {
	return p != "" && p != "." && p != ".." && len(ref.QueryEscape(p)) < 230
}

func sortedStrs(m map[string]bool) []string {
	k := ref.M{}
	for s := range m {
		k[s] = true
	}
	return sortedKeys(k)
}

var nastyParts = []string{"a", "b", "root", "targets", "snapshot", "timestamp", "..", ".", "/", "//", "%", "%2F", "%2f", "%2e", "%2E", "+", " ", "\\", ".json", "1.", "é", "~", "#", "?", "*", "-", "_", "A", "\x01", "tuf_tmp", ":", "|"}

// nastyName concatenates parts that matter to escaping and path handling.
func nastyName(t *rapid.T, label string) string {
	var b strings.Builder
	for i, n := 0, intn(t, label+"#", 1, 5); i < n; i++ {
		b.WriteString(pick(t, label, nastyParts...))
	}
	return b.String()
}

// long fills p up to the length of the longest names file systems hold.
func long(p string) string {
	if n := len(ref.QueryEscape(p)); n < 200 {
		return p + strings.Repeat("l", 200-n)
	}
	return p
}

// variant is a name that careless handling confuses with p.
func variant(t *rapid.T, p string) string {
	switch intn(t, "variant", 0, 11) {
	case 10: // a long common end
		return pick(t, "front", "x", "y", "x/", "../") + long(p)
	case 11: // a long common start
		return long(p) + pick(t, "end", "x", "y", ".json", "/z")
	case 0:
		return ref.QueryEscape(p)
	case 1:
		return "./" + p
	case 2:
		return "/" + p
	case 3:
		return p + "/"
	case 4:
		return strings.ReplaceAll(p, " ", "+")
	case 5:
		return strings.ReplaceAll(p, "/", "//")
	case 6:
		return "x/../" + p
	case 7:
		return strings.ToUpper(p)
	case 8:
		return strings.ReplaceAll(p, "/", "_")
	}
	return strings.ReplaceAll(p, "%", "%25")
}

// TestC21Roles: roles with arbitrary names stay inside the metadata directory,
// never share a file and never replace a top-level role.
func TestC21Roles(t *testing.T) {
	run(t, 250, func(t *rapid.T) {
		outer := newDir()
		defer rmDir(outer)
		defer confine()()
		base := filepath.Join(outer, "l1", "l2", "l3", "l4")
		metaDir, files := filepath.Join(base, "meta"), filepath.Join(base, "files")
		top := map[string]ref.RoleSpec{}
		for i, n := range []string{"root", "timestamp", "snapshot", "targets"} {
			top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
		}
		r := ref.NewRepo(top, chance(t, "consistent", 50))
		names := map[string]bool{}
		for i, n := 0, intn(t, "roles", 1, 5); i < n; i++ {
			nm := pick(t, "style", nastyName(t, "role"), nastyName(t, "role"), "../"+nastyName(t, "role"), filepath.Join(outer, "abs"), "../../files/x", "../meta/root", "root", "x/../root", "root.json", "Root", "tuf_tmp", "1.root", "1.targets", "..", ".", "../root", "%2e%2e/root", "root%00", "targets/", "snapshot ")
			if len(names) > 0 && chance(t, "variant", 40) {
				nm = variant(t, sortedStrs(names)[0])
			}
			if strings.Count(nm, "..") <= 4 && len(ref.QueryEscape(nm)) < 215 {
				names[nm] = true
			}
		}
		forbidden := false
		for _, nm := range sortedStrs(names) {
			switch nm {
			case "", "root", "timestamp", "snapshot", "targets":
				forbidden = true
				continue // delegations to these are refused at parse time: separate documents below
			}
			ro := r.AddRole(nm, ref.RoleSpec{Keys: []*ref.Key{ref.Ed(9)}, Threshold: 1})
			ro.Files["t:"+nm] = []byte("content " + nm)
			ro.Expires = ref.FarFuture
			r.Roles["targets"].Delegs = append(r.Roles["targets"].Delegs, ref.Deleg{Name: nm, Paths: []string{"*", "*/*", "*/*/*", "*/*/*/*"}})
		}
		for p := range map[string]int{"a": 1, "b/c": 2} {
			r.Roles["targets"].Files[p] = []byte("content " + p)
		}
		r.RecAlgs = []string{"sha256"}
		r.Publish()
		if forbidden {
			// a delegator that names a top-level role
			d := must(ref.Decode(r.CurRole["targets"])).(ref.M)
			sg := ref.Obj(d["signed"])
			bad := pick(t, "topname", "root", "timestamp", "snapshot", "targets", "")
			sg["delegations"] = ref.M{"keys": ref.KeysObj([]*ref.Key{ref.Ed(9)}), "roles": []any{ref.M{"name": bad, "terminating": false, "paths": []any{"*"}, "keyids": []any{ref.Ed(9).ID()}, "threshold": 1}}}
			if _, err := metadata.Targets().FromBytes(ref.SignAll(sg, ref.Ed(3))); err == nil {
				t.Fatalf("delegation to %q accepted", bad)
			}
		}
		served := map[string]string{} // role served under each address
		_ = served
		f := newFetcher(func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) })
		cfg := baseConfig()
		outside := func() map[string][]byte {
			m := readTree(outer)
			for k := range m {
				if strings.HasPrefix(k, "l1/l2/l3/l4/meta/") || strings.HasPrefix(k, "l1/l2/l3/l4/files/") {
					delete(m, k)
				}
			}
			return m
		}
		writeTree(outer, map[string][]byte{"root.json": []byte("outer"), "l1/root.json": []byte("o1"), "l1/l2/l3/l4/root.json": []byte("o4"), "l1/l2/l3/l4/meta.json": []byte("m"), "l1/l2/l3/a": []byte("a")})
		before := outside()
		defer seal(t, outer, base)()
		rec := ev.New("C21Roles").Add(sortedStrs(names), r.Consistent)
		visit := func() *updater.Updater {
			up, err := newUpdater(clientOpt{cfg: cfg, root: r.Roots[1], metaDir: metaDir, targetsDir: files, fetch: f})
			if err == nil {
				err = up.Refresh()
			}
			if err != nil {
				t.Fatalf("honest refresh: %v", err)
			}
			return up
		}
		up := visit()
		// a document can only be told apart by the server if names do not collide there
		for i := 0; i < 2; i++ {
			if _, err := up.GetTargetInfo("no such target"); err != nil && !strings.Contains(err.Error(), "not found") && !collides(r) {
				t.Fatalf("walking all roles %q: %v", sortedStrs(names), err)
			}
			for _, p := range sortedKeys(toM(r.Roles["targets"].Files)) {
				ti, err := up.GetTargetInfo(p)
				if err == nil {
					up.DownloadTarget(ti, "", "")
				}
			}
			if d := diffMaps(outside(), before); d != "" {
				t.Fatalf("files outside the configured directories changed: %s\nroles %q", d, sortedStrs(names))
			}
			got := readTree(metaDir)
			for n, want := range map[string][]byte{"root.json": r.Roots[1], "timestamp.json": r.CurTS, "snapshot.json": r.CurSN, "targets.json": r.CurRole["targets"]} {
				if string(got[n]) != string(want) {
					t.Fatalf("cached %s was replaced (%s) by a delegated role among %q", n, brief(got[n]), sortedStrs(names))
				}
			}
			// every loaded role has its own complete file
			set := up.GetTrustedMetadataSet()
			count := 0
			for nm, md := range set.Targets {
				found := false
				b, _ := md.ToBytes(false)
				for n, raw := range got {
					if strings.HasSuffix(n, ".json") && string(raw) == string(r.CurRole[nm]) {
						found = true
					}
				}
				if !found {
					t.Fatalf("the role %q (%d bytes) has no file of its own; roles %q, files %q", nm, len(b), sortedStrs(names), sortedKeys(toM(got)))
				}
				count++
			}
			if len(got) != 3+count {
				t.Fatalf("%d roles are loaded but %d files cached: %q", count, len(got), sortedKeys(toM(got)))
			}
			rec.Class(fmt.Sprintf("%d roles cached", count)).ClassIf(forbidden, "delegation to a top-level name")
			// again from the cache, which must not be confused either
			up = visit()
		}
		rec.NonTrivial(len(names) > 0).Sample(sortedStrs(names)).End()
	})
}

// seal sometimes makes the directories around the configured ones read-only,
// so that not even a short-lived file can be made there, until the result is
// called.
func seal(t *rapid.T, outer, base string) func() {
	if !chance(t, "sealed", 50) {
		return func() {}
	}
	for _, d := range []string{"meta", "files"} {
		if err := os.MkdirAll(filepath.Join(base, d), 0o755); err != nil {
			panic(fmt.Sprintf("HARNESS-ERROR %v", err))
		}
	}
	mode := func(m os.FileMode) {
		for d := base; strings.HasPrefix(d, outer); d = filepath.Dir(d) {
			if err := os.Chmod(d, m); err != nil {
				panic(fmt.Sprintf("HARNESS-ERROR %v", err))
			}
		}
	}
	mode(0o555)
	return func() { mode(0o755) }
}

func toM(m map[string][]byte) ref.M {
	o := ref.M{}
	for k := range m {
		o[k] = true
	}
	return o
}

// collides reports whether two roles of the repository have the same address.
func collides(r *ref.Repo) bool {
	seen := map[string]bool{"root": true}
	for _, n := range roleNames(r) {
		e := ref.QueryEscape(n)
		for _, f := range []string{e, fmt.Sprintf("%d.%s", r.Roles[n].Version, e)} {
			if seen[f] || strings.HasSuffix(f, ".root") || strings.HasSuffix(f, ".snapshot") || f == "timestamp" || f == "snapshot" {
				return true
			}
			seen[f] = true
		}
	}
	return false
}

// TestC21Targets: target files with arbitrary names.
func TestC21Targets(t *testing.T) {
	r := plainRepo(false)
	run(t, 300, func(t *rapid.T) {
		outer := newDir()
		defer rmDir(outer)
		defer confine()()
		base := filepath.Join(outer, "l1", "l2", "l3", "l4")
		metaDir, files := filepath.Join(base, "meta"), filepath.Join(base, "files")
		byURL := map[string][]byte{}
		f := newFetcher(func(url string, max int64, n int) ref.Resp {
			if b, ok := byURL[url]; ok {
				return ref.Resp{Data: b}
			}
			return r.Serve(metaURL, targetURL, url)
		})
		up, err := newUpdater(clientOpt{cfg: baseConfig(), root: r.Roots[1], metaDir: metaDir, targetsDir: files, fetch: f})
		if err == nil {
			err = up.Refresh()
		}
		if err != nil {
			t.Fatalf("cannot set up a client: %v", err)
		}
		writeTree(outer, map[string][]byte{"a": []byte("outer"), "l1/a": []byte("o1"), "l1/l2/l3/l4/b": []byte("o4")})
		before := readTree(outer)
		defer seal(t, outer, base)()
		rec := ev.New("C21Targets")
		var tried []string
		byFile := map[string]string{}
		for i, n := 0, intn(t, "n", 1, 5); i < n; i++ {
			p := pick(t, "style", nastyName(t, "p"), nastyName(t, "p"), "../"+nastyName(t, "p"), "../../a", "../meta/root.json", filepath.Join(outer, "a"), "..", ".", "", "../files.x", "x/../../../b", "%2e%2e/b", "..%2Fb")
			if len(tried) > 0 && chance(t, "variant", 40) {
				p = variant(t, tried[intn(t, "of", 0, len(tried)-1)])
			}
			if strings.Count(p, "..") > 4 || len(ref.QueryEscape(p)) > 230 {
				continue
			}
			tried = append(tried, p)
			b := []byte("content of " + p)
			byURL[targetURL+"/"+p] = b
			ti, err := parseTarget(p, ref.TargetFile(b, "sha256"))
			if err != nil {
				continue
			}
			var file string
			if pn := guard(func() { file, _, err = up.DownloadTarget(ti, "", "") }); pn != "" {
				t.Fatalf("DownloadTarget(%q): %s", p, pn)
			}
			after := readTree(outer)
			for k := range after {
				if _, old := before[k]; !old && !strings.HasPrefix(k, "l1/l2/l3/l4/files/") {
					t.Fatalf("DownloadTarget(%q) created %s", p, k)
				}
			}
			for k, v := range before {
				if !strings.HasPrefix(k, "l1/l2/l3/l4/files/") && string(after[k]) != string(v) {
					t.Fatalf("DownloadTarget(%q) changed %s", p, k)
				}
			}
			if err == nil && filepath.Dir(file) != files {
				t.Fatalf("DownloadTarget(%q) reports the file %s", p, file)
			}
			if err == nil {
				if o, dup := byFile[file]; dup && o != p {
					t.Fatalf("targets %q and %q share the file %s", o, p, file)
				}
				byFile[file] = p
			}
			rec.ClassIf(err == nil, "stored").ClassIf(err != nil, "refused")
		}
		for file, p := range byFile {
			if b, err := os.ReadFile(file); err != nil || string(b) != "content of "+p {
				t.Fatalf("after all downloads %s, the file of %q, holds %q (%v); paths %q", file, p, b, err, tried)
			}
		}
		rec.ClassIf(len(byFile) > 1, "several files").Add(tried).NonTrivial(len(tried) > 0).Sample(tried).End()
	})
}

// TestC21Repos: repository names of a map file.
func TestC21Repos(t *testing.T) {
	r := plainRepo(false)
	run(t, 200, func(t *rapid.T) {
		outer := newDir()
		defer rmDir(outer)
		defer confine()()
		base := filepath.Join(outer, "l1", "l2", "l3", "l4")
		metaDir, files := filepath.Join(base, "meta"), filepath.Join(base, "files")
		os.MkdirAll(base, 0o755)
		names := map[string]bool{}
		for i, n := 0, intn(t, "repos", 1, 4); i < n; i++ {
			nm := pick(t, "style", nastyName(t, "r"), nastyName(t, "r"), "../"+nastyName(t, "r"), "..", ".", "", "../files", "../../x", filepath.Join(outer, "abs"), "x/../..", "a/../b")
			if len(names) > 0 && chance(t, "variant", 40) {
				nm = variant(t, sortedStrs(names)[0])
			}
			if strings.Count(nm, "..") <= 4 && len(nm) < 150 {
				names[nm] = true
			}
		}
		repos, list, trusted := ref.M{}, []any{}, map[string][]byte{}
		for _, nm := range sortedStrs(names) {
			repos[nm] = []any{metaURL}
			list = append(list, nm)
			trusted[nm] = r.Roots[1]
		}
		m := ref.M{"repositories": repos, "mapping": []any{ref.M{"paths": []any{"*"}, "repositories": list, "threshold": 1, "terminating": false}}}
		writeTree(outer, map[string][]byte{"root.json": []byte("outer"), "l1/root.json": []byte("o1"), "l1/l2/l3/l4/root.json": []byte("o4")})
		defer seal(t, outer, base)()
		rec := ev.New("C21Repos").Add(sortedStrs(names))
		cfg, err := multirepo.NewConfig(ref.Encode(m), trusted)
		if err == nil {
			cfg.LocalMetadataDir, cfg.LocalTargetsDir = metaDir, files
			var cl *multirepo.MultiRepoClient
			if pn := guard(func() { cl, err = multirepo.New(cfg) }); pn != "" {
				t.Fatalf("multirepo.New with repositories %q: %s", sortedStrs(names), pn)
			}
			_ = cl
		}
		dirs := map[string]bool{}
		filepath.Walk(outer, func(p string, fi os.FileInfo, err error) error {
			rel, _ := filepath.Rel(outer, p)
			if err != nil || rel == "." || rel == "l1" || rel == "l1/l2" || rel == "l1/l2/l3" || rel == "l1/l2/l3/l4" || rel == "l1/l2/l3/l4/meta" || rel == "l1/l2/l3/l4/files" {
				return nil
			}
			if rest, ok := strings.CutPrefix(rel, "l1/l2/l3/l4/meta/"); ok {
				if fi.IsDir() {
					if strings.Contains(rest, "/") {
						t.Fatalf("nested directory %s for repositories %q", rel, sortedStrs(names))
					}
					dirs[rest] = true
				} else if strings.Count(rest, "/") == 0 {
					t.Fatalf("repositories %q: file %s directly in the shared metadata directory", sortedStrs(names), rel)
				}
				return nil
			}
			if strings.HasSuffix(rel, "root.json") {
				if b, _ := os.ReadFile(p); len(b) <= 5 {
					return nil
				}
			}
			t.Fatalf("repositories %q made %s", sortedStrs(names), rel)
			return nil
		})
		if err == nil && len(dirs) != len(names) {
			t.Fatalf("%d repositories %q share %d directories", len(names), sortedStrs(names), len(dirs))
		}
		rec.ClassIf(err == nil, "accepted").ClassIf(err != nil, "refused")
		rec.NonTrivial(len(names) > 0).Sample(sortedStrs(names)).End()
	})
}

var _ = time.Second
