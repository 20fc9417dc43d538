package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	dlfetcher "github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
	"pgregory.net/rapid"

	"verif/harness/ev"
)

// A raw HTTP server on the loopback interface: it sends exactly the bytes of a
// plan, so that any truncation, stall or false declaration can be played.
type plan struct {
	head    string        // status line and headers
	pieces  [][]byte      // what follows, written piece by piece
	pause   time.Duration // between pieces
	end     string        // "close", "reset", "stall", "drip", "endless", "keep"
	dripped []byte
	sent    atomic.Int64
	served  atomic.Int64
	done    chan struct{} // closed when the client has returned
}

type rawServer struct {
	addr  string
	other string // another address of the same server, if there is one
	plans sync.Map
	seq   atomic.Int64
}

var theServer = sync.OnceValue(func() *rawServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS-ERROR: no loopback: " + err.Error())
	}
	s := &rawServer{addr: l.Addr().String()}
	accept := func(l net.Listener) {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.handle(c.(*net.TCPConn))
		}
	}
	go accept(l)
	s.other = s.addr
	if l2, err := net.Listen("tcp", "127.0.0.2:0"); err == nil {
		s.other = l2.Addr().String()
		go accept(l2)
	}
	return s
})

const endlessCap = 48 << 20

var filler = bytes.Repeat([]byte("endless "), 8<<10)

func (s *rawServer) handle(c *net.TCPConn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		for {
			h, err := r.ReadString('\n')
			if err != nil {
				return
			}
			if strings.TrimSpace(h) == "" {
				break
			}
		}
		f := strings.Fields(line)
		if len(f) < 2 {
			return
		}
		v, ok := s.plans.Load(strings.SplitN(strings.TrimPrefix(f[1], "/"), "/", 2)[0])
		if !ok {
			io.WriteString(c, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			return
		}
		p := v.(*plan)
		p.served.Add(1)
		if !p.play(c) {
			return
		}
	}
}

func (p *plan) write(c *net.TCPConn, b []byte) bool {
	n, err := c.Write(b)
	p.sent.Add(int64(n))
	return err == nil
}

// play returns whether the connection stays usable.
func (p *plan) play(c *net.TCPConn) bool {
	if !p.write(c, []byte(p.head)) {
		return false
	}
	for _, b := range p.pieces {
		if p.pause > 0 {
			time.Sleep(p.pause)
		}
		if !p.write(c, b) {
			return false
		}
	}
	switch p.end {
	case "keep":
		return true
	case "reset":
		c.SetLinger(0)
	case "stall":
		<-p.done
	case "drip":
		for i := 0; ; i++ {
			select {
			case <-p.done:
				return false
			case <-time.After(20 * time.Millisecond):
			}
			if !p.write(c, p.dripped) {
				return false
			}
		}
	case "endless":
		for p.sent.Load() < endlessCap {
			if !p.write(c, p.dripped) {
				return false
			}
		}
	}
	return false
}

func chunks(b []byte, size int) []byte {
	var o bytes.Buffer
	for len(b) > 0 {
		n := min(size, len(b))
		fmt.Fprintf(&o, "%x\r\n%s\r\n", n, b[:n])
		b = b[n:]
	}
	return o.Bytes()
}

// fetchOutcome is what a download must give.
type fetchOutcome struct {
	data   []byte // with ok
	ok     bool
	status int  // expected in the error if not zero
	length bool // a length error is expected
}

func TestC19Fetcher(t *testing.T) {
	run(t, 600, func(t *rapid.T) {
		srv := theServer()
		p := &plan{done: make(chan struct{}), end: "close"}
		id := fmt.Sprint(srv.seq.Add(1))
		srv.plans.Store(id, p)
		defer srv.plans.Delete(id)
		url := "http://" + srv.addr + "/" + id + "/file.json"
		timeout := 60 * time.Second

		size := pick(t, "size", 0, 1, 2, 100, 511, 512, 513, 4096, 65536, 300000, intn(t, "exact", 0, 5000))
		body := bytes.Repeat([]byte("0123456789abcdef"), size/16+1)[:size]
		if size > 0 {
			body[size-1] = '!'
		}
		limit := pick[int64](t, "limit", int64(size), int64(size), int64(size)+1, int64(size)-1, int64(size)/2, 2*int64(size)+3, 0, 1<<20, math.MaxInt64, math.MaxInt64-1)
		if limit < 0 {
			limit = 0
		}
		if chance(t, "negative limit", 4) {
			limit = pick[int64](t, "negative", -1, -2, math.MinInt64, math.MinInt64+1)
		}
		category := pick(t, "category", "complete", "complete", "complete", "declared less", "truncated", "truncated", "stalled", "endless", "over then stall", "bad header", "gzip", "no server", "redirected")
		framing := pick(t, "framing", "length", "chunked", "close")
		chunk := pick(t, "chunk size", 1<<20, 7, 512, 1)
		if size > 5000 && chunk < 512 {
			chunk = 1000
		}
		proto := "HTTP/1.1 "
		if framing == "close" && chance(t, "old protocol", 40) {
			proto = "HTTP/1.0 "
		}
		status := 200
		extra := pick(t, "headers", "", "Content-Type: application/json\r\n", "X-Content-Length: 3\r\nAge: 1\r\n", "Cache-Control: no-store\r\n", "ETag: \"x\"\r\nAccept-Ranges: bytes\r\n")
		hints := pick(t, "hints", "", "", "", "HTTP/1.1 103 Early Hints\r\nLink: <x>\r\n\r\n")
		declare := func(framing string, n int64) string {
			switch framing {
			case "length":
				return fmt.Sprintf("Content-Length: %d\r\n", n)
			case "chunked":
				return "Transfer-Encoding: chunked\r\n"
			}
			return "Connection: close\r\n"
		}
		wire := func(b []byte, last bool) []byte {
			if framing != "chunked" {
				return b
			}
			w := chunks(b, chunk)
			if last {
				w = append(w, "0\r\n\r\n"...)
			}
			return w
		}
		split := func(b []byte) [][]byte {
			if len(b) > 1 && chance(t, "in two writes", 40) {
				i := intn(t, "split", 1, len(b)-1)
				p.pause = time.Millisecond
				return [][]byte{b[:i], b[i:]}
			}
			return [][]byte{b}
		}
		var want fetchOutcome
		var rawBody []byte
		overLimit := func(n int64) fetchOutcome {
			return fetchOutcome{length: true}
		}
		switch category {
		case "complete":
			if chance(t, "other status", 40) {
				status = pick(t, "status", 404, 403, 500, 503, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 304, 307, 400, 401, 408, 410, 416, 429, 502, 599, 299, 999)
				if status == 204 || status == 304 {
					framing, body = "length", nil
				}
			}
			decl := declare(framing, int64(len(body)))
			if status == 204 || status == 304 {
				decl = ""
			}
			p.pieces = split(wire(body, true))
			if framing != "close" && chance(t, "keep alive", 50) {
				p.end = "keep"
				if chance(t, "silent afterwards", 30) {
					p.end = "stall"
				}
			} else {
				extra += "Connection: close\r\n"
			}
			p.head = fmt.Sprintf("%s%s%d Some Reason\r\n%s%s\r\n", hints, proto, status, extra, decl)
			switch {
			case status != 200:
				want = fetchOutcome{status: status}
			case int64(len(body)) > limit:
				want = overLimit(int64(len(body)))
			default:
				want = fetchOutcome{ok: true, data: body}
			}
		case "declared less":
			// the response ends where its declared length says
			framing = "length"
			n := 0
			if size > 0 {
				n = intn(t, "declared", 0, size-1)
			}
			p.head = fmt.Sprintf("%s%s200 OK\r\n%sConnection: close\r\n%s\r\n", hints, proto, extra, declare("length", int64(n)))
			p.pieces = split(body)
			if int64(n) > limit {
				want = overLimit(int64(n))
			} else {
				want = fetchOutcome{ok: true, data: body[:n]}
			}
		case "truncated":
			if framing == "close" {
				framing = "length"
			}
			declared := int64(size)
			w := wire(body, true)
			cut := 0
			if framing == "length" && chance(t, "declared more", 50) || len(w) == 0 {
				declared += pick[int64](t, "more", 1, 2, 1000, 1<<40)
				cut = len(w)
				framing = "length"
				w = body
				cut = len(w)
			} else {
				cut = intn(t, "cut", 0, len(w)-1)
				if framing == "chunked" {
					// a chunked body whose terminating empty chunk lacks only its final
					// line ends is complete for lenient readers
					cut = min(cut, max(0, len(w)-5))
				}
			}
			p.head = fmt.Sprintf("%s%s200 OK\r\n%sConnection: close\r\n%s\r\n", hints, proto, extra, declare(framing, declared))
			if chance(t, "cut in the header", 12) {
				h := p.head[len(hints):]
				p.head = h[:intn(t, "header cut", 0, len(h)-3)]
				cut = 0
			}
			p.pieces = split(w[:cut])
			p.end = pick(t, "end", "close", "reset")
		case "stalled":
			timeout = time.Duration(pick(t, "timeout", 40, 80, 150)) * time.Millisecond
			if framing == "close" {
				framing = "length"
			}
			w := wire(body, true)
			declared := int64(size)
			cut := 0
			if len(w) == 0 {
				declared, framing = 5, "length"
			} else {
				cut = intn(t, "cut", 0, len(w)-1)
				if framing == "chunked" {
					cut = min(cut, max(0, len(w)-5))
				}
			}
			p.head = fmt.Sprintf("%s%s200 OK\r\n%s%s\r\n", hints, proto, extra, declare(framing, declared))
			p.end = "stall"
			if chance(t, "in the header", 20) {
				p.head = p.head[:intn(t, "header cut", 0, len(p.head)-3)]
				cut = 0
			} else if chance(t, "drip", 30) {
				// a byte now and then, far too slow to finish
				framing = "length"
				p.head = fmt.Sprintf("%s200 OK\r\n%s%s\r\n", proto, extra, declare("length", int64(size)+100000))
				w, cut = body, min(cut, size)
				p.end, p.dripped = "drip", []byte("d")
				if limit < int64(size)+100000 {
					limit = math.MaxInt64
				}
			}
			p.pieces = split(w[:cut])
		case "endless":
			limit = pick[int64](t, "endless limit", 0, 1, 1000, 70000, 1<<20)
			p.end, p.dripped = "endless", filler
			decl := declare(framing, 1<<40)
			if framing == "chunked" {
				p.dripped = chunks(filler, 1<<30)
			}
			p.head = fmt.Sprintf("%s200 OK\r\n%s%s\r\n", proto, extra, decl)
			want = overLimit(1 << 40)
		case "over then stall":
			if framing == "length" {
				framing = "chunked"
			}
			if limit > 1<<20 {
				limit = int64(size)
			}
			over := bytes.Repeat([]byte{'x'}, int(max(limit, 0))+1)
			p.head = fmt.Sprintf("%s200 OK\r\n%s%s\r\n", proto, extra, declare(framing, 0))
			if framing == "chunked" && chance(t, "one chunk", 50) {
				chunk = len(over)
			} else {
				chunk = 1 << 16
			}
			p.pieces = split(wire(over, false))
			p.end = "stall"
			want = overLimit(max(limit, 0) + 1)
		case "bad header":
			bad := pick(t, "bad", "Content-Length: abc\r\n", "Content-Length: -5\r\n", "Content-Length: 1e3\r\n", "Content-Length: 99999999999999999999999\r\n", "Content-Length: 3\r\nContent-Length: 4\r\n", "Transfer-Encoding: unknown\r\n", "no colon here\r\n")
			p.head = fmt.Sprintf("HTTP/1.1 200 OK\r\n%s%sConnection: close\r\n\r\n", extra, bad)
			if chance(t, "status line", 30) {
				p.head = pick(t, "line", "HTTP/1.1 abc OK\r\n\r\n", "garbage\r\n\r\n", "HTTP/9 200 OK\r\n\r\n", "\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\n")
			}
			p.pieces = split(body)
		case "gzip":
			var z bytes.Buffer
			zw := gzip.NewWriter(&z)
			zw.Write(body)
			zw.Close()
			raw := z.Bytes()
			want = fetchOutcome{ok: true, data: body}
			if int64(size) > limit {
				want = overLimit(int64(size))
			}
			if chance(t, "damaged", 30) {
				raw = raw[:intn(t, "gzip cut", 1, len(raw)-1)]
				want = fetchOutcome{}
			}
			p.head = fmt.Sprintf("%s200 OK\r\n%sConnection: close\r\nContent-Encoding: gzip\r\n%s\r\n", proto, extra, declare(framing, int64(len(raw))))
			p.pieces = split(wire(raw, true))
			rawBody = raw
		case "redirected":
			// the file is served from elsewhere
			p.head = fmt.Sprintf("%s%s200 OK\r\n%sConnection: close\r\n%s\r\n", hints, proto, extra, declare(framing, int64(len(body))))
			p.pieces = split(wire(body, true))
			want = fetchOutcome{ok: true, data: body}
			if chance(t, "to an error", 30) {
				status = pick(t, "final status", 404, 403, 500)
				p.head = strings.Replace(p.head, "200 OK", fmt.Sprint(status, " No"), 1)
				want = fetchOutcome{status: status}
			} else if int64(size) > limit {
				want = overLimit(int64(size))
			}
			for i, n := 0, intn(t, "redirects", 1, 4); i < n; i++ {
				hop := fmt.Sprint(srv.seq.Add(1))
				host := pick(t, "host", srv.addr, srv.addr, srv.other)
				to := strings.Replace(url, srv.addr, host, 1)
				code := pick(t, "redirect", 301, 302, 303, 307, 308)
				junk := pick(t, "redirect body", "", "moved", strings.Repeat("moved ", 1000))
				srv.plans.Store(hop, &plan{done: p.done, end: "close", head: fmt.Sprintf("HTTP/1.1 %d Moved\r\nLocation: %s\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", code, to, len(junk)), pieces: [][]byte{[]byte(junk)}})
				defer srv.plans.Delete(hop)
				url = "http://" + srv.addr + "/" + hop + "/file.json"
			}
		case "no server":
			url = pick(t, "url", "http://127.0.0.1:1/x", "http://[::1", "", "file:///etc/hostname", "gopher://x/", "http://"+srv.addr+"/\x7f", "://")
		}
		type result struct {
			data  []byte
			err   error
			panic string
		}
		f := dlfetcher.DefaultFetcher{}
		ch := make(chan result, 1)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		start := time.Now()
		go func() {
			var r result
			r.panic = guard(func() { r.data, r.err = f.DownloadFile(url, limit, timeout) })
			ch <- r
		}()
		var r result
		desc := fmt.Sprintf("%s, %s framing, status %d, %d bytes, limit %d, end %s, head %q", category, framing, status, size, limit, p.end, p.head)
		select {
		case r = <-ch:
		case <-time.After(timeout + 60*time.Second):
			close(p.done)
			t.Fatalf("no answer %s after the timeout of %s: %s", time.Since(start), timeout, desc)
		}
		close(p.done)
		runtime.ReadMemStats(&m1)
		if r.panic != "" {
			t.Fatalf("%s: %s", desc, r.panic)
		}
		var httpErr metadata.ErrDownloadHTTP
		isHTTP := errors.As(r.err, &httpErr)
		switch {
		case rawBody != nil && r.err == nil && bytes.Equal(r.data, rawBody) && int64(len(rawBody)) <= limit:
			// a client that does not ask for compression takes the body as it is
		case want.ok:
			if r.err != nil {
				t.Fatalf("a complete body within the limit is refused: %v: %s", r.err, desc)
			}
			if !bytes.Equal(r.data, want.data) {
				t.Fatalf("%d bytes returned instead of %d: %s", len(r.data), len(want.data), desc)
			}
		default:
			if r.err == nil {
				t.Fatalf("%d bytes are returned without an error: %s", len(r.data), desc)
			}
			if len(r.data) != 0 {
				t.Fatalf("an error together with %d bytes: %s", len(r.data), desc)
			}
			if want.status != 0 {
				if !isHTTP || httpErr.StatusCode != want.status {
					t.Fatalf("error %T %v instead of status %d: %s", r.err, r.err, want.status, desc)
				}
				if !errors.Is(r.err, metadata.ErrDownload{}) {
					t.Fatalf("a status error is no download error: %s", desc)
				}
			} else if isHTTP {
				t.Fatalf("error %v claims a status: %s", r.err, desc)
			}
			if want.length && !errors.Is(r.err, metadata.ErrDownloadLengthMismatch{}) {
				t.Fatalf("error %T %v instead of a length error: %s", r.err, r.err, desc)
			}
		}
		if category == "endless" {
			if n := p.sent.Load(); n >= endlessCap {
				t.Fatalf("the client took %d bytes with a limit of %d: %s", n, limit, desc)
			}
			if d := m1.TotalAlloc - m0.TotalAlloc; d > 24<<20 {
				t.Fatalf("%d bytes were allocated with a limit of %d: %s", d, limit, desc)
			}
		}
		rec := ev.New("C19Fetcher").Add(p.head, size, limit, category, p.end, strconv.Itoa(len(p.pieces))).Class("category: "+category, "framing: "+framing).
			ClassIf(want.ok, "returned").ClassIf(want.length, "length error").ClassIf(want.status != 0, "status error")
		if category != "no server" && category != "stalled" && p.served.Load() == 0 {
			t.Fatalf("the request never arrived: %v: %s", r.err, desc)
		}
		rec.NonTrivial(category != "no server").Sample(desc).End()
	})
}

// Many downloads at once through one fetcher.
func TestC19Concurrent(t *testing.T) {
	run(t, 40, func(t *rapid.T) {
		srv := theServer()
		n := intn(t, "downloads", 2, 12)
		f := &dlfetcher.DefaultFetcher{}
		type job struct {
			url   string
			limit int64
			body  []byte
			ok    bool
		}
		var jobs []job
		for i := 0; i < n; i++ {
			size := intn(t, "size", 0, 40000)
			b := bytes.Repeat([]byte{byte('a' + i)}, size)
			p := &plan{done: make(chan struct{}), end: "keep", head: fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", size), pieces: [][]byte{b}}
			id := fmt.Sprint(srv.seq.Add(1))
			srv.plans.Store(id, p)
			defer srv.plans.Delete(id)
			l := int64(size) + int64(pick(t, "limit", 0, 1, -1, 1000))
			if l < 0 {
				l = 0
			}
			jobs = append(jobs, job{"http://" + srv.addr + "/" + id, l, b, int64(size) <= l})
		}
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				d, err := f.DownloadFile(j.url, j.limit, 60*time.Second)
				if j.ok && (err != nil || !bytes.Equal(d, j.body)) {
					errs[i] = fmt.Sprintf("download %d: %v, %d bytes of %d", i, err, len(d), len(j.body))
				}
				if !j.ok && (err == nil || d != nil) {
					errs[i] = fmt.Sprintf("download %d: %d bytes with a limit of %d", i, len(d), j.limit)
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				t.Fatal(e)
			}
		}
		http.DefaultClient.CloseIdleConnections()
		ev.New("C19Concurrent").Add(fmt.Sprint(jobs)).NonTrivial(n > 2).End()
	})
}
