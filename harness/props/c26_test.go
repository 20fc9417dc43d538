package props

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// The command-line client, run as a process in a scratch directory against a
// loopback server, with the reference client as oracle.

var cliBinary = sync.OnceValue(func() string {
	if b := os.Getenv("VERIF_CLI"); b != "" {
		return b
	}
	out := filepath.Join(scratchRoot(), "tuf-client")
	c := exec.Command("go", "build", "-buildvcs=false", "-o", out, "./examples/cli/tuf-client")
	c.Dir = "/repo"
	if b, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR %v\n%s", err, b))
	}
	return out
})

// cli runs the command in dir and reports whether it exited with 0.
func cli(t interface {
	Fatalf(string, ...any)
}, dir string, args ...string) (bool, string) {
	c := exec.Command(cliBinary(), args...)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "NO_PROXY=*", "TMPDIR=" + os.TempDir()}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	kill := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	kill.Stop()
	if err == nil {
		return true, out.String()
	}
	if c.ProcessState.ExitCode() < 0 || strings.Contains(out.String(), "panic:") {
		t.Fatalf("tuf-client %q ended with %v\n%s", args, err, out.String())
	}
	return false, out.String()
}

// wire is the address as the server sees it, below base.
func wire(base, addr string) string {
	u, err := url.Parse(addr)
	if err != nil {
		return "?unparsable"
	}
	b, _ := url.Parse(base)
	s := strings.TrimPrefix(u.EscapedPath(), b.EscapedPath()+"/")
	if u.RawQuery != "" {
		s += "?" + u.RawQuery
	}
	return s
}

func TestC26CommandLine(t *testing.T) {
	run(t, 110, func(t *rapid.T) {
		dir := newDir()
		defer rmDir(dir)
		r := genRepo(t)
		old := []*ref.Repo{r.Clone()}
		faults := map[string]string{}
		where := pick(t, "targets at", "meta", "meta", "files", "deep/er")
		var base string
		mbase := func() string { return base + "/meta" }
		tbase := func() string { return base + "/" + where }
		var mu sync.Mutex
		var log []string
		// answer is a function of the requested address only
		answer := func(rest string) ref.Resp {
			x := ref.Resp{Status: 404}
			if f, ok := strings.CutPrefix(rest, "meta/"); ok {
				if b, ok := r.Meta[f]; ok {
					x = ref.Resp{Data: b}
				}
			}
			for p, b := range r.Target {
				if wire(base, tbase()+"/"+p) == rest {
					x = ref.Resp{Data: b}
				}
			}
			for _, part := range sortedKeys2(faults) {
				if !strings.Contains(rest, part) {
					continue
				}
				switch faults[part] {
				case "missing":
					return ref.Resp{Status: 404}
				case "forbidden":
					return ref.Resp{Status: 403}
				case "error":
					return ref.Resp{Status: 500}
				case "cut":
					return ref.Resp{Status: -1}
				}
				if x.Status == 404 {
					continue
				}
				switch faults[part] {
				case "empty":
					x.Data = nil
				case "short":
					x.Data = x.Data[:len(x.Data)/2]
				case "longer":
					x.Data = append(append([]byte(nil), x.Data...), ' ')
				case "flipped":
					if len(x.Data) > 0 {
						x.Data = append([]byte(nil), x.Data...)
						x.Data[len(x.Data)*2/3] ^= 4
					}
				case "stale":
					if b, ok := old[0].Meta[strings.TrimPrefix(rest, "meta/")]; ok {
						x.Data = b
					}
				}
			}
			return x
		}
		base, done := theHost().open(func(rest string) ref.Resp {
			mu.Lock()
			defer mu.Unlock()
			log = append(log, rest)
			return answer(rest)
		})
		defer done()
		var hist []string
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s\nrequests: %q", fmt.Sprintf(f, a...), strings.Join(hist, "\n"), log)
		}
		drawFaults := func() {
			clear(faults)
			for i, n := 0, pick(t, "faults", 0, 0, 0, 1, 1, 2); i < n; i++ {
				part := pick(t, "faulty", "root.json", "timestamp.json", "snapshot.json", "targets.json", where+"/", "1.root.json", fmt.Sprintf("%d.root.json", r.RootV))
				faults[part] = pick(t, "fault", "missing", "forbidden", "error", "cut", "empty", "short", "longer", "flipped", "flipped", "stale")
			}
			if len(faults) > 0 {
				hist = append(hist, fmt.Sprintf("faults: %v", faults))
			}
		}
		var cache map[string][]byte // nil before init
		files := map[string][]byte{}
		check := func(what string) {
			m := map[string][]byte{}
			for k, v := range readTree(dir) {
				if rel, ok := strings.CutPrefix(k, "tuf_metadata/"); ok {
					m[rel] = v
					continue
				}
				if rel, ok := strings.CutPrefix(k, "tuf_download/"); ok {
					if d, ok := files[rel]; !ok || !bytes.Equal(d, v) {
						fail("after %s file %q holds %q, expected %q", what, k, v, d)
					}
					continue
				}
				if k != "root.json" {
					fail("after %s there is a file %q", what, k)
				}
			}
			for k := range files {
				if _, err := os.Stat(filepath.Join(dir, "tuf_download", k)); err != nil {
					fail("after %s file %q is gone", what, k)
				}
			}
			if d := diffMaps(m, cache); d != "" {
				fail("after %s the metadata folder is wrong (left: found, right: expected): %s", what, d)
			}
		}
		// initialisation
		rec := ev.New("C26CommandLine")
		args := []string{"init", "-u", mbase()}
		byFile := r.Roots[1] == nil && chance(t, "by file", 90) || chance(t, "by file", 40)
		var given []byte
		got := true
		if byFile {
			vs := []int64{}
			for v := range r.Roots {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
			given = r.Roots[vs[intn(t, "given root", 0, len(vs)-1)]]
			switch intn(t, "bad root", 0, 9) {
			case 0:
				given = append([]byte(nil), given...)
				given[len(given)/2] ^= 1
			case 1:
				given = r.CurTS
			case 2:
				given = []byte("{}")
			}
			os.WriteFile(filepath.Join(dir, "root.json"), given, 0o644)
			args = append(args, "-f", pick(t, "spelling", "root.json", "./root.json"))
		} else {
			if chance(t, "faulty init", 25) {
				drawFaults()
			}
			x := answer("meta/1.root.json")
			got = x.Status != -1
			if x.Status == 0 {
				given = x.Data
			}
		}
		_, cs := ref.NewTrusted(given, time.Now())
		well := got && len(cs) == 0
		ok, out := cli(t, dir, args...)
		hist = append(hist, fmt.Sprintf("%q: %v (root good: %v)", args, ok, well))
		if ok != well {
			fail("%q exits with success: %v, but the root is good: %v\n%s", args, ok, well, out)
		}
		cache = map[string][]byte{}
		if got && (!byFile || well) {
			cache["root.json"] = append([]byte{}, given...)
		}
		check("init")
		rec.ClassIf(byFile, "root by file").ClassIf(!byFile, "root from the repository").ClassIf(!well, "bad root")
		gets, good := 0, 0
		for i, n := 0, intn(t, "gets", 1, 5); i < n; i++ {
			if i > 0 && chance(t, "evolve", 60) {
				hist = append(hist, "repository: "+evolve(t, r))
				if chance(t, "remember", 50) {
					old[0] = r.Clone()
				}
			}
			clear(faults)
			if chance(t, "faulty get", 50) {
				drawFaults()
			}
			path := lookups(t, r, 1)[0]
			if path == "" {
				path = "f1.txt"
			}
			name := ref.QueryEscape(path)
			if chance(t, "earlier file", 15) {
				b := content(path, intn(t, "content", 0, 40))
				files[name] = b
				if err := os.WriteFile(filepath.Join(dir, "tuf_download", name), b, 0o644); err != nil {
					t.Fatalf("HARNESS-ERROR %v", err)
				}
			}
			cfg := ref.DefaultConfig(mbase())
			cfg.TargetURL = mbase()
			args := []string{"get", "-u", mbase()}
			if where != "meta" || chance(t, "explicit targets address", 20) {
				args = append(args, "-t", tbase())
				cfg.TargetURL = tbase()
			}
			if chance(t, "nonprefixed", 15) {
				args = append(args, "--nonprefixed")
				cfg.Prefix = false
			}
			args = append(args, "--", path)
			// what has to happen
			var want error
			installed := false
			fetch := func(u string, max int64) ref.Resp {
				x := answer(wire(base, u))
				if x.Status == 0 && int64(len(x.Data)) > max {
					return ref.Resp{Status: -1}
				}
				return x
			}
			open := false
			rc, err := ref.NewClient(cfg, cache["root.json"], cache, time.Now(), fetch)
			want = err
			if err == nil {
				want = rc.Refresh()
			}
			if want == nil {
				var info ref.M
				info, _, _, want = rc.Info(path)
				if want == nil {
					if b, ok := files[name]; ok && fits(info, b) {
						installed = true
					} else {
						serving := 0
						us := rc.TargetURLs(path, info, "")
						var data []byte
						for _, u := range us {
							if x := fetch(u, ref.Int(info["length"])); x.Status == 0 && fits(info, x.Data) {
								serving++
								data = x.Data
							}
						}
						open = serving > 0 && serving < len(us)
						installed = serving > 0
						if installed {
							files[name] = data
						} else {
							want = fmt.Errorf("target not served")
						}
					}
				}
			}
			if open {
				break
			}
			ok, out := cli(t, dir, args...)
			gets++
			hist = append(hist, fmt.Sprintf("%q: %v (reference: %s)", args, ok, errStr(want)))
			if ok != (want == nil) {
				fail("%q exits with success: %v, reference: %s\n%s", args, ok, errStr(want), out)
			}
			if ok {
				good++
				rec.Class("installed")
			} else {
				rec.Class("refused")
			}
			check("get")
		}
		rec.Add([]byte(strings.Join(hist, "\n"))).NonTrivial(gets > 0 && cache["root.json"] != nil).Sample(map[string]any{"history": hist}).End()
	})
}

// TestC26Known observes the recorded defect: a root given by file is stored
// under the given path instead of root.json.
func TestC26Known(t *testing.T) {
	once(t, func(t *testing.T) {
		ks := map[string]ref.RoleSpec{}
		for i, r := range docTypes {
			ks[r] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
		}
		r := ref.NewRepo(ks, true)
		r.Roles["targets"].Files["f"] = []byte("content")
		r.Publish()
		base, done := theHost().open(func(rest string) ref.Resp {
			return r.Serve("meta", "meta", rest)
		})
		defer done()
		bad := 0
		for _, file := range []string{"trusted.json", "keys/root.json"} {
			dir := newDir()
			defer rmDir(dir)
			writeTree(dir, map[string][]byte{file: r.Roots[1]})
			ok1, _ := cli(t, dir, "init", "-u", base+"/meta", "-f", file)
			ok2, _ := cli(t, dir, "get", "-u", base+"/meta", "f")
			b, _ := os.ReadFile(filepath.Join(dir, "tuf_download", "f"))
			if ok2 != (string(b) == "content") {
				t.Fatalf("init -f %s: get exits with success: %v, file holds %q", file, ok2, b)
			}
			if !ok1 || !ok2 {
				bad++
			}
		}
		if bad > 0 {
			ev.Known("[init-file] init -f FILE stores the root under tuf_metadata/FILE instead of tuf_metadata/root.json, so that with any file but root.json in the working directory nothing can be fetched")
		}
		ev.New("C26Known").Add([]byte("init-file")).NonTrivial(true).End()
	})
}
