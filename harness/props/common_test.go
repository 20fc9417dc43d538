package props

import (
	"errors"
	"flag"
	"fmt"
	"math/bits"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"pgregory.net/rapid"

	"verif/harness/ev"
	"verif/harness/ref"
)

// helpers are programs the tests run in child processes.
var helpers = map[string]func(){}

func TestMain(m *testing.M) {
	if h := helpers[os.Getenv("VERIF_HELPER")]; h != nil {
		h()
		os.Exit(0)
	}
	code := m.Run()
	ev.Flush()
	os.Exit(code)
}

// scale multiplies case counts: 1 in the quick tier.
func scale() float64 {
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && v > 0 {
		return v
	}
	return 1
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// shard is this process's index; enumerations split their work over shards.
func shard() (int, int) {
	i, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if n < 1 {
		n = 1
	}
	return i, n
}

// run executes a property n*scale times (per shard).
func run(t *testing.T, n int, f func(t *rapid.T)) {
	t.Helper()
	c := int(float64(n) * scale())
	if c < 1 {
		c = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(c))
	start := cpuTime()
	rapid.Check(t, func(rt *rapid.T) {
		caseStart.Store(int64(cpuTime()))
		defer caseStart.Store(-1)
		f(rt)
	})
	t.Logf("cases=%d cpu=%s", c, cpuTime()-start)
}

// once runs a deterministic regression only in shard 0.
func once(t *testing.T, f func(t *testing.T)) {
	if i, _ := shard(); i == 0 {
		caseStart.Store(int64(cpuTime()))
		defer caseStart.Store(-1)
		f(t)
	}
}

// ---- non-termination guard ----
//
// A case normally takes milliseconds of CPU. The guard measures the CPU time
// this process spent since the case began (not wall time, so a busy machine
// does not matter) and aborts the process with a marker the runner turns into
// a violation if a single case burns far more than that.

var caseStart atomic.Int64

const caseCPULimit = 90 * time.Second

func init() {
	caseStart.Store(-1)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := caseStart.Load()
			if s >= 0 && cpuTime()-time.Duration(s) > caseCPULimit {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Printf("NONTERMINATION: one case used more than %s of CPU\n%s\n", caseCPULimit, buf[:n])
				os.Exit(97)
			}
		}
	}()
}

// ---- scratch directories ----

var dirSeq atomic.Int64

var scratchRoot = sync.OnceValue(func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d, err := os.MkdirTemp(d, "case")
	if err != nil {
		panic(err)
	}
	return d
})

// newDir creates a fresh directory that the caller removes with rmDir.
func newDir() string {
	d := filepath.Join(scratchRoot(), fmt.Sprintf("d%d", dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func rmDir(d string) {
	if strings.HasPrefix(d, scratchRoot()) {
		os.RemoveAll(d)
	}
}

// confine makes everywhere a program might put files without being told to (the
// working directory, the directory for temporary files, the home directory)
// unusable until the result is called.
func confine() func() {
	d := newDir()
	old, err := os.Getwd()
	if err == nil {
		err = os.Chdir(d)
	}
	if err == nil {
		err = os.Chmod(d, 0o555)
	}
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR %v", err))
	}
	saved := map[string]string{}
	for _, v := range []string{"TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME"} {
		saved[v] = os.Getenv(v)
		os.Setenv(v, filepath.Join(d, "none"))
	}
	return func() {
		for v, x := range saved {
			os.Setenv(v, x)
			if x == "" {
				os.Unsetenv(v)
			}
		}
		os.Chdir(old)
		os.Chmod(d, 0o755)
		stray := readTree(d)
		rmDir(d)
		if len(stray) > 0 {
			panic(fmt.Sprintf("files were created in the working directory: %q", stray))
		}
	}
}

// readTree returns all regular files below dir by relative path.
func readTree(dir string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil && (fi.Mode()&os.ModeSymlink != 0 || fi.Mode().Perm() == 0) {
			return nil // leads nowhere, or made unreadable by the test
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = b
		return nil
	})
	return out
}

func writeTree(dir string, files map[string][]byte) {
	for n, b := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
}

func copyMap(m map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func diffMaps(a, b map[string][]byte) string {
	var d []string
	for k := range a {
		if x, ok := b[k]; !ok {
			d = append(d, "only left: "+k)
		} else if string(x) != string(a[k]) {
			d = append(d, fmt.Sprintf("differs: %s (%s / %s)", k, brief(a[k]), brief(x)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "only right: "+k)
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func brief(b []byte) string {
	v, err := ref.Decode(b)
	if err == nil {
		if s := ref.Obj(ref.Obj(v)["signed"]); s != nil {
			return fmt.Sprintf("%s v%d %d bytes", ref.Str(s["_type"]), ref.Int(s["version"]), len(b))
		}
	}
	if len(b) > 24 {
		b = b[:24]
	}
	return fmt.Sprintf("%q", b)
}

// ---- in-memory fetcher ----

// maxRequests bounds the downloads of one case; the client's own bounds keep
// well below it.
const maxRequests = 3000

type fetcher struct {
	serve  func(url string, max int64, n int) ref.Resp
	log    []ref.Request
	counts map[string]int
	wrap   bool  // wrap HTTP errors as a custom fetcher may
	sloppy bool  // do not enforce the limit
	failed error // what the last request ended with
}

func newFetcher(serve func(url string, max int64, n int) ref.Resp) *fetcher {
	return &fetcher{serve: serve, counts: map[string]int{}}
}

var errNetwork = errors.New("simulated network failure")

func (f *fetcher) DownloadFile(url string, max int64, timeout time.Duration) ([]byte, error) {
	f.log = append(f.log, ref.Request{URL: url, Max: max})
	if len(f.log) > maxRequests {
		panic(fmt.Sprintf("more than %d downloads in one case, last %s", maxRequests, url))
	}
	n := f.counts[url]
	f.counts[url]++
	r := f.serve(url, max, n)
	var err error
	switch {
	case r.Status == -1:
		err = errNetwork
	case r.Status != 0 && r.Status != http.StatusOK:
		err = metadata.ErrDownloadHTTP{StatusCode: r.Status, URL: url}
		if f.wrap {
			err = fmt.Errorf("custom fetcher: %w", err)
		}
	case int64(len(r.Data)) > max && !f.sloppy:
		err = metadata.ErrDownloadLengthMismatch{Msg: fmt.Sprintf("%s: %d > %d", url, len(r.Data), max)}
	}
	f.failed = err
	if err != nil {
		return nil, err
	}
	// hand out a private copy so that retained slices cannot alias
	return append([]byte(nil), r.Data...), nil
}

// refFetch gives the reference client the same view of a response plan.
func refFetch(serve func(url string, max int64, n int) ref.Resp) func(string, int64) ref.Resp {
	counts := map[string]int{}
	return func(url string, max int64) ref.Resp {
		n := counts[url]
		counts[url]++
		r := serve(url, max, n)
		if (r.Status == 0 || r.Status == 200) && int64(len(r.Data)) > max {
			return ref.Resp{Status: -1}
		}
		return r
	}
}

// ---- client construction ----

const (
	metaURL   = "http://repo.test/metadata"
	targetURL = "http://repo.test/files"
)

type clientOpt struct {
	cfg        ref.Config
	root       []byte
	metaDir    string
	targetsDir string
	fetch      *fetcher
}

func baseConfig() ref.Config {
	c := ref.DefaultConfig(metaURL)
	c.TargetURL = targetURL
	return c
}

func sutConfig(o clientOpt) *config.UpdaterConfig {
	cfg, err := config.New(o.cfg.MetaURL, o.root)
	if err != nil {
		panic(err)
	}
	if o.cfg.TargetURL != ref.DefaultConfig(o.cfg.MetaURL).TargetURL {
		cfg.RemoteTargetsURL = o.cfg.TargetURL
	}
	cfg.LocalMetadataDir = o.metaDir
	cfg.LocalTargetsDir = o.targetsDir
	cfg.Fetcher = o.fetch
	cfg.MaxRootRotations = o.cfg.MaxRoot
	cfg.MaxDelegations = o.cfg.MaxDelegations
	cfg.RootMaxLength = o.cfg.RootMax
	cfg.TimestampMaxLength = o.cfg.TSMax
	cfg.SnapshotMaxLength = o.cfg.SNMax
	cfg.TargetsMaxLength = o.cfg.TGMax
	cfg.DisableLocalCache = o.cfg.DisableCache
	cfg.PrefixTargetsWithHash = o.cfg.Prefix
	cfg.UnsafeLocalMode = o.cfg.Local
	return cfg
}

func newUpdater(o clientOpt) (*updater.Updater, error) { return updater.New(sutConfig(o)) }

// ---- logging ----

type logCounter struct {
	n     atomic.Int64
	limit int64
}

// countLogs installs a logger that renders every message (so that values passed
// to it are exercised) and panics when a single case logs implausibly much,
// which turns an endless loop into an ordinary failure. Call the result to
// restore silence.
func countLogs(limit int64) func() {
	metadata.SetLogger(&logCounter{limit: limit})
	return func() { metadata.SetLogger(metadata.DiscardLogger{}) }
}

func (c *logCounter) Info(msg string, kv ...any) {
	_ = fmt.Sprint(kv...)
	if c.n.Add(1) > c.limit {
		panic(fmt.Sprintf("more than %d log messages in one case: endless loop", c.limit))
	}
}

func (c *logCounter) Error(err error, msg string, kv ...any) { c.Info(msg, kv...) }

// ---- panics ----

// guard runs f and reports a panic as a string ("" if none).
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			// rapid uses panics internally to stop a case; pass those on
			if strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			p = fmt.Sprintf("panic: %v\n%s", r, firstFrames())
		}
	}()
	f()
	return ""
}

func firstFrames() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-tuf-metadata") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- error kinds ----

// errMatches reports whether err is of the kind that belongs to a cause.
func errMatches(err error, c ref.Cause) bool {
	switch c {
	case ref.Unsigned:
		return errors.Is(err, metadata.ErrUnsignedMetadata{})
	case ref.BadVersion:
		return errors.Is(err, metadata.ErrBadVersionNumber{})
	case ref.EqualVersion:
		return errors.Is(err, metadata.ErrEqualVersionNumber{})
	case ref.Expired:
		return errors.Is(err, metadata.ErrExpiredMetadata{})
	case ref.Mismatch:
		return errors.Is(err, metadata.ErrLengthOrHashMismatch{})
	case ref.Order:
		var e metadata.ErrRuntime
		return errors.As(err, &e)
	case ref.MissingInfo:
		var e metadata.ErrRepository
		return errors.As(err, &e)
	case ref.NoDelegation:
		var e metadata.ErrValue
		return errors.As(err, &e)
	}
	return true // malformed input: any error
}

// explains reports whether err matches at least one of the causes.
func explains(err error, cs ref.Causes) bool {
	for c := range cs {
		if errMatches(err, c) {
			return true
		}
	}
	return false
}

// ---- small generators ----

// rapid's own integer and sampling generators favour small values and early
// alternatives heavily; these draw uniformly (from unbiased bits) and still
// shrink towards the low end.
var bitGens = func() [65]*rapid.Generator[uint64] {
	var g [65]*rapid.Generator[uint64]
	bit := rapid.Bool()
	for k := range g {
		g[k] = rapid.Custom(func(t *rapid.T) uint64 {
			var n uint64
			for i := 0; i < k; i++ {
				n <<= 1
				if bit.Draw(t, "") {
					n |= 1
				}
			}
			return n
		})
	}
	return g
}()

// intn draws uniformly from lo..hi.
func intn(t *rapid.T, label string, lo, hi int) int {
	if hi < lo {
		panic("intn: empty range")
	}
	span := uint64(hi-lo) + 1
	k := bits.Len64(span-1) + 3
	if span == 1 {
		return lo
	}
	if k > 40 {
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
	return lo + int(bitGens[k].Draw(t, label)*span>>k)
}

// chance is true in the given percentage of draws.
func chance(t *rapid.T, label string, percent int) bool {
	if percent <= 0 {
		return false
	}
	// false is the simple outcome: shrinking turns variations off
	return intn(t, label, 0, 99) >= 100-percent
}

func pick[T any](t *rapid.T, label string, xs ...T) T { return xs[intn(t, label, 0, len(xs)-1)] }

// keySet draws n distinct Ed25519 keys (other kinds occasionally).
func keySet(t *rapid.T, label string, lo, hi int) []*ref.Key {
	n := intn(t, label+"#", lo, hi)
	start := intn(t, label+"@", 0, ref.NumEd-1)
	var out []*ref.Key
	for i := 0; i < n; i++ {
		out = append(out, ref.Ed(start+i*3+1))
	}
	if n > 0 && chance(t, label+"mixed", 8) {
		out[0] = ref.ECDSA(intn(t, label+"ec", 0, ref.NumECDSA-1))
	}
	return out
}

// roleSpec draws a role with 1..hi keys and a satisfiable threshold.
func roleSpec(t *rapid.T, label string, hi int) ref.RoleSpec {
	k := keySet(t, label, 1, hi)
	return ref.RoleSpec{Keys: k, Threshold: intn(t, label+"thr", 1, len(k))}
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}
