package ref

import (
	"fmt"
	"path"
	"strings"
	"time"
)

// Resp is a mirror's answer to one request.
type Resp struct {
	Data   []byte
	Status int // 0 or 200: data; other: HTTP error status; -1: other failure
}

// Request is one observed download.
type Request struct {
	URL string
	Max int64
}

// Config mirrors the client's configuration.
type Config struct {
	MetaURL, TargetURL string
	MaxRoot            int64
	MaxDelegations     int
	RootMax, TSMax     int64
	SNMax, TGMax       int64
	DisableCache       bool
	Local              bool
	Prefix             bool
}

// DefaultConfig is the documented default configuration.
func DefaultConfig(url string) Config {
	return Config{MetaURL: url, TargetURL: strings.TrimRight(url, "/") + "/targets", MaxRoot: 32, MaxDelegations: 32,
		RootMax: 512000, TSMax: 16384, SNMax: 2000000, TGMax: 5000000, Prefix: true}
}

// Client is the reference client: it works on a cache (file name to content),
// obtains responses from Fetch, and records its requests.
type Client struct {
	Cfg   Config
	T     *Trusted
	Cache map[string][]byte
	Fetch func(url string, max int64) Resp
	Log   []Request
	// Returned keeps the causes of the refusal that ended the last operation.
	Refusal Causes
}

// FetchError ends an operation because of a failed download.
type FetchError struct{ Resp Resp }

func (e FetchError) Error() string { return fmt.Sprintf("fetch failed: status %d", e.Resp.Status) }

// RefuseError ends an operation because metadata was refused.
type RefuseError struct {
	What   string
	Causes Causes
}

func (e RefuseError) Error() string { return e.What + " refused: " + e.Causes.String() }

// ErrNotFound ends a lookup without result.
var ErrNotFound = fmt.Errorf("target not found")

// NewClient constructs the reference client.
func NewClient(cfg Config, root []byte, cache map[string][]byte, now time.Time, fetch func(string, int64) Resp) (*Client, error) {
	t, c := NewTrusted(root, now)
	if t == nil {
		return nil, RefuseError{"initial root", c}
	}
	cl := &Client{Cfg: cfg, T: t, Cache: cache, Fetch: fetch}
	cl.persist("root", root)
	return cl, nil
}

// CacheName is the cache file of a role.
func CacheName(role string) string { return QueryEscape(role) + ".json" }

func (c *Client) persist(role string, data []byte) {
	if !c.Cfg.DisableCache {
		c.Cache[CacheName(role)] = append([]byte(nil), data...)
	}
}

func (c *Client) local(role string) []byte { return c.Cache[CacheName(role)] }

func (c *Client) haveLocal(role string) bool { _, ok := c.Cache[CacheName(role)]; return ok }

func slash(u string) string {
	if strings.HasSuffix(u, "/") {
		return u
	}
	return u + "/"
}

func (c *Client) get(url string, max int64) ([]byte, error) {
	c.Log = append(c.Log, Request{url, max})
	r := c.Fetch(url, max)
	if r.Status != 0 && r.Status != 200 {
		return nil, FetchError{r}
	}
	return r.Data, nil
}

func (c *Client) getMeta(role string, max int64, version string) ([]byte, error) {
	u := slash(c.Cfg.MetaURL)
	if version != "" {
		u += version + "."
	}
	return c.get(u+QueryEscape(role)+".json", max)
}

// Refresh runs the client workflow.
func (c *Client) Refresh() error {
	if c.Cfg.Local {
		return c.localRefresh()
	}
	// root
	first := c.T.Root.Version() + 1
	for v := first; v-first < c.Cfg.MaxRoot; v++ {
		data, err := c.getMeta("root", c.Cfg.RootMax, fmt.Sprint(v))
		if err != nil {
			if s := err.(FetchError).Resp.Status; s == 404 || s == 403 {
				break
			}
			return err
		}
		if cs := c.T.UpdateRoot(data); len(cs) > 0 {
			return RefuseError{"root", cs}
		}
		c.persist("root", data)
	}
	// timestamp
	if c.haveLocal("timestamp") {
		c.T.UpdateTimestamp(c.local("timestamp"))
	}
	data, err := c.getMeta("timestamp", c.Cfg.TSMax, "")
	if err != nil {
		return err
	}
	cs := c.T.UpdateTimestamp(data)
	switch {
	case len(cs) == 0:
		c.persist("timestamp", data)
	case cs[EqualVersion] && (len(cs) == 1 || len(cs) == 2 && cs[BadVersion]):
		// an equal version is discarded, whatever snapshot it names
	default:
		return RefuseError{"timestamp", cs}
	}
	// snapshot
	ok := false
	if c.haveLocal("snapshot") {
		ok = len(c.T.UpdateSnapshot(c.local("snapshot"), true)) == 0
	}
	if !ok {
		rec := c.T.TS.Meta("snapshot.json")
		max := Int(rec["length"])
		if max == 0 {
			max = c.Cfg.SNMax
		}
		data, err := c.getMeta("snapshot", max, c.ver(rec))
		if err != nil {
			return err
		}
		if cs := c.T.UpdateSnapshot(data, false); len(cs) > 0 {
			return RefuseError{"snapshot", cs}
		}
		c.persist("snapshot", data)
	}
	_, err = c.loadTargets("targets", "root")
	return err
}

func (c *Client) ver(rec M) string {
	if Bool(c.T.Root.Signed["consistent_snapshot"]) {
		return fmt.Sprint(Int(rec["version"]))
	}
	return ""
}

func (c *Client) localRefresh() error {
	for _, r := range []string{"timestamp", "snapshot", "targets"} {
		if !c.haveLocal(r) {
			return FetchError{Resp{Status: -1}}
		}
		var cs Causes
		switch r {
		case "timestamp":
			cs = c.T.UpdateTimestamp(c.local(r))
		case "snapshot":
			cs = c.T.UpdateSnapshot(c.local(r), false)
		default:
			cs = c.T.UpdateTargets(c.local(r), "targets", "root")
		}
		if len(cs) > 0 {
			return RefuseError{r, cs}
		}
	}
	return nil
}

func (c *Client) loadTargets(role, parent string) (*Doc, error) {
	if d := c.T.Targets[role]; d != nil {
		return d, nil
	}
	if c.haveLocal(role) {
		if len(c.T.UpdateTargets(c.local(role), role, parent)) == 0 {
			return c.T.Targets[role], nil
		}
	}
	if c.Cfg.Local {
		return nil, FetchError{Resp{Status: -1}}
	}
	rec := c.T.SN.Meta(role + ".json")
	if rec == nil {
		return nil, RefuseError{role, Causes{MissingInfo: true}}
	}
	max := Int(rec["length"])
	if max == 0 {
		max = c.Cfg.TGMax
	}
	data, err := c.getMeta(role, max, c.ver(rec))
	if err != nil {
		return nil, err
	}
	if cs := c.T.UpdateTargets(data, role, parent); len(cs) > 0 {
		return nil, RefuseError{role, cs}
	}
	c.persist(role, data)
	return c.T.Targets[role], nil
}

// Info looks up a target: its description, the holding role and the roles
// visited.
func (c *Client) Info(target string) (M, string, []string, error) {
	if c.T.Targets["targets"] == nil {
		if err := c.Refresh(); err != nil {
			return nil, "", nil, err
		}
	}
	var lerr error
	holder, signed, visited, aborted := Walk(target, c.Cfg.MaxDelegations, func(role, parent string) (M, bool) {
		d, err := c.loadTargets(role, parent)
		if err != nil {
			lerr = err
			return nil, false
		}
		return d.Signed, true
	})
	if aborted {
		return nil, "", visited, lerr
	}
	if holder == "" {
		return nil, "", visited, ErrNotFound
	}
	return Obj(Obj(signed["targets"])[target]), holder, visited, nil
}

// TargetURLs lists the acceptable request URLs for a target description: one
// per listed hash when prefixing applies, otherwise one.
func (c *Client) TargetURLs(target string, info M, base string) []string {
	if base == "" {
		base = c.Cfg.TargetURL
	}
	base = slash(base)
	if !(c.Cfg.Prefix && Bool(c.T.Root.Signed["consistent_snapshot"])) {
		return []string{base + target}
	}
	var out []string
	dir, file := path.Split(target)
	for _, h := range Obj(info["hashes"]) {
		out = append(out, base+dir+strings.ToLower(Str(h))+"."+file)
	}
	return out
}
