package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// TestC08Corrupt: cached files are damaged in all kinds of ways between visits;
// refreshes against the honest repository must still succeed.
func TestC08Corrupt(t *testing.T) {
	run(t, 110, func(t *rapid.T) {
		r := genRepo(t)
		first := r.Roots[r.RootV]
		arch := newArchive()
		arch.record(r)
		s := newSession(t, baseConfig())
		defer s.close()
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		rec := ev.New("C08Corrupt")
		damaged, outdated := 0, 0
		unreadable := map[string]bool{} // cached files that cannot be read
		for i, n := 0, intn(t, "visits", 1, 4); i < n; i++ {
			if i > 0 && chance(t, "evolve", 50) {
				s.note("repository: %s", evolve(t, r))
				arch.record(r)
			}
			if i > 0 || chance(t, "before first visit", 50) {
				os.MkdirAll(s.meta, 0o755)
				var names []string
				for _, n := range append([]string{"root", "timestamp", "snapshot"}, roleNames(r)...) {
					names = append(names, ref.CacheName(n))
				}
				sort.Strings(names)
				for j, k := 0, intn(t, "damages", 0, 4); j < k; j++ {
					name := names[intn(t, "name", 0, len(names)-1)]
					old := s.cache[name]
					var d []byte
					how := ""
					switch intn(t, "how", 0, 11) {
					case 10:
						how = pick(t, "link", "a link to itself", "a link to nowhere", "a link to a directory")
					case 11:
						if os.Geteuid() == 0 {
							continue // root may read everything
						}
						how = "not readable"
					case 0:
						d, how = []byte{}, "empty"
					case 1:
						if len(old) == 0 {
							continue
						}
						d, how = old[:intn(t, "cut", 0, len(old)-1)], "truncated"
					case 2:
						d, how = []byte(pick(t, "garbage", "garbage", "{}", "null", "[]", "{\"signed\":null}", "{\"signed\":{}}", "{\"signed\":{\"_type\":7}}", "\x00\x01", "{\"signatures\":null,\"signed\":{\"_type\":\"snapshot\"}}", strings.Repeat("[", 20000))), "garbage"
					case 3:
						o := arch.order[intn(t, "otherrole", 0, len(arch.order)-1)]
						l := arch.byRole[o]
						d, how = l[intn(t, "otherdoc", 0, len(l)-1)], "a document of "+o
						s.swapped = s.swapped || arch.interchangeable(strings.TrimSuffix(name, ".json"), d)
					case 4, 5: // an older document of the same role
						for rn, l := range arch.byRole {
							if ref.CacheName(rn) == name {
								d, how = l[intn(t, "older", 0, len(l)-1)], "an earlier document"
							}
						}
						if d == nil {
							continue
						}
						outdated++
					case 6:
						if len(old) == 0 {
							continue
						}
						d = flipBit(t, old)
						how = "one bit flipped"
					case 7:
						how = "removed"
					case 8: // content changed, signatures kept
						if v, err := ref.Decode(old); err == nil {
							if sg := ref.Obj(ref.Obj(v)["signed"]); sg != nil {
								c := ref.CloneM(ref.Obj(v))
								ref.Obj(c["signed"])["version"] = ref.Int(sg["version"]) + 5
								d, how = ref.Encode(c), "version raised without signing"
							}
						}
						if d == nil {
							continue
						}
					case 9: // a forged document by a stranger
						h := &hostile{t: t, repo: r, arch: arch}
						src := old
						for rn, l := range arch.byRole {
							if ref.CacheName(rn) == name {
								src = l[len(l)-1]
							}
						}
						if d, how = h.forge("", nil, src); d == nil {
							continue
						}
					}
					damaged++
					s.note("cached %s: %s", name, how)
					p := filepath.Join(s.meta, name)
					if how == "removed" {
						delete(s.cache, name)
						delete(unreadable, name)
						os.Remove(p)
						continue
					}
					if d == nil && how != "empty" {
						// there, but it cannot be read
						delete(s.cache, name)
						os.Remove(p)
						var err error
						switch how {
						case "a link to itself":
							err = os.Symlink(name, p)
						case "a link to nowhere":
							err = os.Symlink("nowhere", p)
						case "a link to a directory":
							err = os.Symlink(".", p)
						default:
							err = os.WriteFile(p, []byte("x"), 0o000)
						}
						if err != nil {
							panic(err)
						}
						unreadable[name] = true
						rec.Class("cached file is " + how)
						continue
					}
					if unreadable[name] {
						delete(unreadable, name)
						os.Remove(p)
					}
					s.cache[name] = d
					if err := os.WriteFile(p, d, 0o600); err != nil {
						panic(err)
					}
				}
				if chance(t, "leftover", 25) {
					n := pick(t, "leftname", "tuf_tmp", "tuf_tmp123456", "tuf_tmp1.json", "garbage.txt")
					s.cache[n] = []byte("left by a crash")
					os.WriteFile(filepath.Join(s.meta, n), s.cache[n], 0o600)
				}
			}
			if !s.start(first) {
				s.fail("the root is refused")
			}
			if !s.refresh() {
				s.fail("the refresh against an honest repository fails with a damaged cache")
			}
			s.expectHonest(r)
			for name := range unreadable {
				if s.cache[name] != nil {
					delete(unreadable, name)
				}
			}
			for _, p := range lookups(t, r, 2) {
				ti, _ := s.info(p)
				want, _ := publishedInfo(r, p, s.cfg.MaxDelegations)
				if !s.swapped && (ti == nil) != (want == nil) {
					s.fail("lookup of %q with a damaged cache: found %v, published %v", p, ti != nil, want != nil)
				}
			}
		}
		rec.ClassIf(damaged > 0, "damaged cache").ClassIf(outdated > 0, "outdated document")
		rec.Add(fmt.Sprint(s.hist), r.CurTS).NonTrivial(damaged > 0)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// watch observes a directory through inotify.
type watch struct{ fd int }

func newWatch(dir string) *watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_DELETE|syscall.IN_MOVED_TO|syscall.IN_MOVED_FROM|syscall.IN_CLOSE_WRITE); err != nil {
		syscall.Close(fd)
		return nil
	}
	return &watch{fd}
}

type fsEvent struct {
	name string
	mask uint32
}

func (w *watch) read() []fsEvent {
	var out []fsEvent
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return out
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			mask := binary.LittleEndian.Uint32(b[4:])
			l := int(binary.LittleEndian.Uint32(b[12:]))
			name := strings.TrimRight(string(b[16:16+l]), "\x00")
			out = append(out, fsEvent{name, mask})
			b = b[16+l:]
		}
	}
}

func (w *watch) close() { syscall.Close(w.fd) }

func openFDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		// sockets, pipes and epoll belong to the runtime
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, scratchRoot()) {
			n++
		}
	}
	return n
}

// TestC08Atomic: every cached file only ever changes by a rename of a complete
// file; nothing is left behind, whatever the working directory.
func TestC08Atomic(t *testing.T) {
	run(t, 60, func(t *rapid.T) {
		r := genRepo(t)
		first := r.Roots[r.RootV]
		s := newSession(t, baseConfig())
		defer s.close()
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		rec := ev.New("C08Atomic")
		// unusual working directories
		cwd := must(os.Getwd())
		where := pick(t, "cwd", "here", "elsewhere", "removed", "metadata")
		switch where {
		case "elsewhere":
			d := filepath.Join(s.base, "elsewhere")
			os.Mkdir(d, 0o755)
			must(0, os.Chdir(d))
		case "removed":
			d := filepath.Join(s.base, "gone")
			os.Mkdir(d, 0o755)
			must(0, os.Chdir(d))
			os.Remove(d)
		case "metadata":
			os.MkdirAll(s.meta, 0o755)
			must(0, os.Chdir(s.meta))
		}
		defer os.Chdir(cwd)
		os.MkdirAll(s.meta, 0o755)
		links := filepath.Join(s.base, "links")
		os.Mkdir(links, 0o755)
		fds := openFDs()
		replaced := 0
		for i, n := 0, intn(t, "visits", 1, 4); i < n; i++ {
			if i > 0 && chance(t, "evolve", 80) {
				s.note("repository: %s", evolve(t, r))
			}
			// keep every cached file alive under a second name
			before := readTree(s.meta)
			for name := range before {
				os.Remove(filepath.Join(links, name))
				must(0, os.Link(filepath.Join(s.meta, name), filepath.Join(links, name)))
			}
			// what the directory may ever contain under a role's name
			w := newWatch(s.meta)
			if !s.start(first) || !s.refresh() {
				s.fail("the refresh against an honest repository fails in working directory %q", where)
			}
			for _, p := range lookups(t, r, 2) {
				s.info(p)
			}
			after := readTree(s.meta)
			if w != nil {
				for _, e := range w.read() {
					if !strings.HasSuffix(e.name, ".json") {
						continue
					}
					if _, final := after[e.name]; !final && before[e.name] == nil {
						continue // a temporary file
					}
					if e.mask&syscall.IN_MOVED_TO == 0 {
						s.fail("cached file %s was not replaced atomically (event mask %#x)", e.name, e.mask)
					}
					replaced++
				}
				w.close()
				rec.Class("directory watched")
			} else {
				ev.Note("inotify is not available: atomic replacement is judged from hard links only")
			}
			for name, old := range before {
				b, _ := os.ReadFile(filepath.Join(links, name))
				if string(b) != string(old) {
					s.fail("cached file %s was changed in place", name)
				}
			}
			for name := range after {
				if _, ok := s.cache[name]; !ok {
					s.fail("%s was left in the metadata directory", name)
				}
			}
		}
		if got := listAll(filepath.Join(s.base, "elsewhere")); len(got) > 1 {
			s.fail("files were left in the working directory: %v", got)
		}
		if left, _ := filepath.Glob("tuf_tmp*"); len(left) > 0 && where != "metadata" {
			s.fail("temporary files left in the working directory: %v", left)
		}
		if left, _ := filepath.Glob(filepath.Join(os.TempDir(), "*tuf*")); len(left) > 0 && os.Getenv("VERIF_SCRATCH") != "" {
			s.fail("temporary files left behind: %v", left)
		}
		if n := openFDs(); n > fds {
			s.fail("%d descriptors are still open below the scratch directory", n-fds)
		}
		rec.Class("working directory: "+where).ClassIf(replaced > 0, "files replaced")
		rec.Add(fmt.Sprint(s.hist), where, r.CurTS).NonTrivial(true)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// TestC08Shared: clients that share a metadata directory and start at the same
// time never leave, or show a reader, anything but complete documents.
func TestC08Shared(t *testing.T) {
	top := map[string]ref.RoleSpec{}
	for i, n := range docTypes {
		top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
	}
	run(t, 12, func(t *rapid.T) {
		base := newDir()
		defer rmDir(base)
		meta := filepath.Join(base, "meta")
		clients := intn(t, "clients", 2, 6)
		rounds := intn(t, "starts each", 10, 30)
		roots := make([][]byte, clients)
		whole := map[string]bool{}
		for i := range roots {
			roots[i] = ref.SignAll(ref.Root(int64(i+1), ref.FarFuture, true, top), ref.Ed(0))
			// white space after the document belongs to the file
			roots[i] = append(roots[i], bytes.Repeat([]byte(" "), intn(t, "padding", 0, 400_000))...)
			whole[string(roots[i])] = true
		}
		must(0, os.MkdirAll(meta, 0o755))
		problems := make(chan string, clients+1)
		stop, read := make(chan struct{}), make(chan int)
		go func() {
			n := 0
			defer func() { read <- n }()
			for {
				select {
				case <-stop:
					return
				default:
				}
				b, err := os.ReadFile(filepath.Join(meta, "root.json"))
				if err == nil && !whole[string(b)] {
					select {
					case problems <- fmt.Sprintf("root.json holds %d bytes that are no complete document", len(b)):
					default:
					}
				}
				if err == nil {
					n++
				}
			}
		}()
		var wg sync.WaitGroup
		for i := range roots {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := newFetcher(func(url string, max int64, n int) ref.Resp { return ref.Resp{Status: 404} })
				for k := 0; k < rounds; k++ {
					if _, err := newUpdater(clientOpt{cfg: baseConfig(), root: roots[i], metaDir: meta, targetsDir: filepath.Join(base, "files"), fetch: f}); err != nil {
						select {
						case problems <- fmt.Sprintf("client %d cannot start beside others: %v", i, err):
						default:
						}
						return
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		reads := <-read
		select {
		case p := <-problems:
			t.Fatalf("%d clients in one directory: %s", clients, p)
		default:
		}
		after := readTree(meta)
		if len(after) != 1 || !whole[string(after["root.json"])] {
			t.Fatalf("%d clients in one directory left %d files, root.json of %d bytes", clients, len(after), len(after["root.json"]))
		}
		ev.New("C08Shared").Add(clients, rounds, fmt.Sprint(len(roots[0]))).ClassIf(reads > 0, "read meanwhile").NonTrivial(reads > 0).Sample(fmt.Sprintf("%d clients, %d starts each", clients, rounds)).End()
	})
}

// withFileLimit runs f while no file may grow beyond n bytes.
func withFileLimit(n int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// TestC08WriteFailure: writes fail at a drawn size; the previous content stays,
// nothing is left behind, and the next visit succeeds.
func TestC08WriteFailure(t *testing.T) {
	run(t, 60, func(t *rapid.T) {
		r := genRepo(t)
		first := r.Roots[r.RootV]
		s := newSession(t, baseConfig())
		defer s.close()
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		rec := ev.New("C08WriteFailure")
		if chance(t, "first visit", 75) {
			s.start(first)
			if !s.refresh() {
				s.fail("honest refresh fails")
			}
		} else {
			os.MkdirAll(s.meta, 0o755)
		}
		for i, n := 0, intn(t, "epochs", 0, 2); i < n; i++ {
			s.note("repository: %s", evolve(t, r))
		}
		before := readTree(s.meta)
		fds := openFDs()
		published := map[string]bool{}
		for _, d := range r.Meta {
			published[string(d)] = true
		}
		for _, d := range before {
			published[string(d)] = true
		}
		published[string(first)] = true
		limit := intn(t, "limit", 0, 2500)
		kind := pick(t, "kind", "size", "size", "size", "directory gone", "obstacle", "read-only directory")
		if names := sortedKeys(toM(before)); len(names) > 0 && chance(t, "damaged as well", 25) {
			// whether a worthless file may be removed is left open
			name := names[intn(t, "damaged", 0, len(names)-1)]
			junk := pick(t, "junk", "", "{", "null", "not json", "{}", "{\"signed\":")
			if err := os.WriteFile(filepath.Join(s.meta, name), []byte(junk), 0o644); err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			s.note("%s holds %q", name, junk)
			delete(before, name)
			published[junk] = true
		}
		var err error
		s.fetch = newFetcher(s.serve)
		visit := func() {
			s.up, err = newUpdater(clientOpt{cfg: s.cfg, root: first, metaDir: s.meta, targetsDir: s.files, fetch: s.fetch})
			if err == nil {
				err = s.up.Refresh()
			}
			if err == nil {
				for p := range r.Roles["targets"].Files {
					_, err = s.up.GetTargetInfo(p)
				}
			}
		}
		var pn string
		obstacle := ""
		switch kind {
		case "size":
			pn = guard(func() { withFileLimit(limit, visit) })
		case "directory gone":
			s.serve = func(url string, max int64, n int) ref.Resp {
				if strings.Contains(url, "timestamp") {
					os.RemoveAll(s.meta)
				}
				return r.Serve(metaURL, targetURL, url)
			}
			s.fetch = newFetcher(s.serve)
			pn = guard(visit)
		case "read-only directory":
			os.Chmod(s.meta, 0o555)
			pn = guard(visit)
			os.Chmod(s.meta, 0o755)
		case "obstacle":
			// a directory stands where a file has to go
			obstacle = pick(t, "obstacle", "root", "timestamp", "snapshot", "targets") + ".json"
			os.RemoveAll(filepath.Join(s.meta, obstacle))
			os.MkdirAll(filepath.Join(s.meta, obstacle, "x"), 0o755)
			delete(before, obstacle)
			pn = guard(visit)
		}
		if pn != "" {
			s.fail("with failing writes (%s, limit %d): %s", kind, limit, pn)
		}
		s.note("visit with failing writes (%s, limit %d): %s", kind, limit, errStr(err))
		after := readTree(s.meta)
		if kind != "directory gone" {
			for name, old := range before {
				got, ok := after[name]
				if !ok {
					s.fail("cached %s disappeared when writing failed", name)
				}
				if string(got) != string(old) && !published[string(got)] {
					s.fail("cached %s is damaged after a failed write: %d bytes, was %d", name, len(got), len(old))
				}
			}
		} else if err == nil {
			s.fail("no error although the metadata directory disappeared")
		}
		if obstacle != "" && err == nil {
			s.fail("no error although %s could not be written", obstacle)
		}
		for name, got := range after {
			if !strings.HasSuffix(name, ".json") {
				s.fail("%s was left in the metadata directory after a failed write", name)
			}
			if !published[string(got)] {
				s.fail("cached %s is incomplete after a failed write (%d bytes)", name, len(got))
			}
			if kind == "size" && len(got) > limit && before[name] == nil {
				s.fail("cached %s exceeds what could be written", name)
			}
		}
		if kind == "size" && err == nil {
			// everything fitted
			for name, got := range after {
				if string(before[name]) != string(got) && len(got) > limit {
					s.fail("no error although %s could not be written", name)
				}
			}
		}
		if n := openFDs(); n > fds {
			s.fail("%d descriptors are still open after failed writes", n-fds)
		}
		// afterwards everything works again
		if obstacle != "" {
			os.RemoveAll(filepath.Join(s.meta, obstacle))
		}
		s.cache = readTree(s.meta)
		s.serve = func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) }
		if !s.start(first) || !s.refresh() {
			s.fail("the refresh after failed writes fails")
		}
		s.expectHonest(r)
		rec.Class("failure: "+kind).ClassIf(err != nil, "visit reports the failure").ClassIf(len(before) > 1, "earlier content present")
		rec.Add(fmt.Sprint(s.hist), kind, limit, r.CurTS).NonTrivial(err != nil)
		if rec.Wants() {
			rec.Sample(s.hist)
		}
		rec.End()
	})
}

// ---- crashes ----

func init() { helpers["c08"] = c08Helper }

// crashRepo is a deterministic repository whose i-th state has large documents.
func crashRepo(states int) *ref.Repo {
	top := map[string]ref.RoleSpec{}
	for i, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		top[n] = ref.RoleSpec{Keys: []*ref.Key{ref.Ed(i)}, Threshold: 1}
	}
	r := ref.NewRepo(top, true)
	t := r.Roles["targets"]
	t.Files["f"] = []byte("x")
	t.Extra = ref.M{"x-pad": strings.Repeat("p", 150000)}
	for i := 0; i < states; i++ {
		t.Dirty = true
		r.TouchRoot()
		r.Publish()
	}
	return r
}

// c08Helper refreshes against ever newer states until it is killed.
func c08Helper() {
	base := os.Getenv("VERIF_BASE")
	n, _ := strconv.Atoi(os.Getenv("VERIF_STATES"))
	cfg := baseConfig()
	first := crashRepo(1).Roots[1]
	fmt.Println("ready")
	for i := 1; i <= n; i++ {
		r := crashRepo(i)
		f := newFetcher(func(url string, max int64, n int) ref.Resp { return r.Serve(metaURL, targetURL, url) })
		up, err := newUpdater(clientOpt{cfg: cfg, root: first, metaDir: filepath.Join(base, "meta"), targetsDir: filepath.Join(base, "files"), fetch: f})
		if err == nil {
			err = up.Refresh()
		}
		if err != nil {
			fmt.Println("helper:", err)
			os.Exit(3)
		}
	}
	os.Exit(0)
}

// TestC08Crash kills a refreshing client process at arbitrary moments.
func TestC08Crash(t *testing.T) {
	const states = 12
	n := 3
	if thorough() {
		n = 60
	}
	full := crashRepo(states)
	known := map[string]bool{}
	for i := 1; i <= states; i++ {
		for _, d := range crashRepo(i).Meta {
			known[string(d)] = true
		}
	}
	run(t, n, func(t *rapid.T) {
		base := newDir()
		defer rmDir(base)
		delay := time.Duration(intn(t, "delay", 0, 60000)) * time.Microsecond
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_HELPER=c08", "VERIF_BASE="+base, fmt.Sprintf("VERIF_STATES=%d", states))
		out := must(cmd.StdoutPipe())
		if err := cmd.Start(); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		buf := make([]byte, 5)
		out.Read(buf)
		time.Sleep(delay)
		cmd.Process.Kill()
		cmd.Wait()
		files := readTree(filepath.Join(base, "meta"))
		for name, b := range files {
			if strings.HasSuffix(name, ".json") && !known[string(b)] {
				t.Fatalf("after a crash the cached %s is not one complete document: %d bytes", name, len(b))
			}
		}
		f := newFetcher(func(url string, max int64, n int) ref.Resp { return full.Serve(metaURL, targetURL, url) })
		up, err := newUpdater(clientOpt{cfg: baseConfig(), root: full.Roots[1], metaDir: filepath.Join(base, "meta"), targetsDir: filepath.Join(base, "files"), fetch: f})
		if err == nil {
			err = up.Refresh()
		}
		if err != nil {
			t.Fatalf("the refresh after a crash fails: %v", err)
		}
		if _, err := up.GetTargetInfo("f"); err != nil {
			t.Fatalf("the lookup after a crash fails: %v", err)
		}
		rec := ev.New("C08Crash").Add(delay.String(), len(files)).Class(fmt.Sprintf("killed with %d files cached", len(files))).NonTrivial(len(files) > 0)
		rec.Sample(ref.M{"killed after": delay.String(), "files": len(files)}).End()
	})
}
