package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The simulated network: one route per URL, each request served according to
// a plan drawn before the clients start.

type netPlan struct {
	kind   int // see net* below
	at     int // bytes delivered before the failure
	chunk  int // largest piece delivered by one read
	noLen  bool
	delay  time.Duration // per read
	status int
	with   bool // the last piece comes together with the end or the error
	whole  bool // the server takes no notice of Range and of conditions
}

const (
	netOK = iota
	netRefused
	netStatus
	netCut       // connection cut inside the body
	netRst       // connection reset inside the body
	netTimeout   // body times out
	netStatusBig // error status with a long body
)

var netNames = [...]string{"", "connection refused", "error status", "body cut short", "connection reset", "read timeout", "error status with long body"}

const maxReq = 256

type netReq struct {
	url    string
	plan   netPlan
	opened bool
	closed bool
	failed bool
	gid    uint32
}

var (
	netRoutes  map[string][]byte
	netPlans   [maxReq]netPlan
	netNPlans  int
	netReqs    [maxReq]netReq
	netNReqs   int
	netOnline  bool
	netTotals  = map[string]int{}
	netUnknown string
)

func netReset() {
	netRoutes = map[string][]byte{}
	netNPlans, netNReqs = 0, 0
	netOnline = true
	netUnknown = ""
}

func netStop() {
	for i := 0; i < netNReqs; i++ {
		if netReqs[i].failed {
			netTotals[netNames[netReqs[i].plan.kind]]++
		}
	}
}

// netForget clears the plans (later requests succeed) and keeps the record.
func netHeal() { netNPlans = 0 }

func netFailed(from int) int {
	n := 0
	for i := from; i < netNReqs; i++ {
		if netReqs[i].failed {
			n++
		}
	}
	return n
}

func netOpenBodies() int {
	n := 0
	for i := 0; i < netNReqs; i++ {
		if netReqs[i].opened && !netReqs[i].closed {
			n++
		}
	}
	return n
}

//go:norace
func netNext(url string) (int, netPlan) {
	i := netNReqs
	if i >= maxReq {
		return -1, netPlan{}
	}
	netNReqs++
	p := netPlan{chunk: 64}
	if i < netNPlans {
		p = netPlans[i]
	}
	netReqs[i] = netReq{url: url, plan: p, gid: runtime.SimGid()}
	return i, p
}

//go:norace
func netMark(i int, opened, closed, failed bool) {
	if i < 0 {
		return
	}
	if opened {
		netReqs[i].opened = true
	}
	if closed {
		netReqs[i].closed = true
	}
	if failed {
		netReqs[i].failed = true
	}
}

//go:norace
func netLookup(url string) ([]byte, bool) {
	b, ok := netRoutes[url]
	if !ok {
		netUnknown = url
	}
	return b, ok
}

func roundTrip(req *http.Request) (*http.Response, error) {
	runtime.SimYield(0)
	url := req.URL.String()
	i, p := netNext(url)
	content, ok := netLookup(url)
	if p.kind == netRefused {
		netMark(i, false, false, true)
		return nil, fmt.Errorf("dial tcp: %w", syscall.ECONNREFUSED)
	}
	if req.Body != nil {
		req.Body.Close()
	}
	code := 200
	if !ok {
		code = 404
		content = []byte("Entry not found")
	}
	if p.kind == netStatus || p.kind == netStatusBig {
		code = p.status
		netMark(i, false, false, true)
		content = []byte("<html>error page</html>")
		if p.kind == netStatusBig {
			content = []byte(strings.Repeat("<html>error page</html>", 40))
		}
	}
	h := http.Header{}
	h.Set("Content-Type", "application/octet-stream")
	etag := fmt.Sprintf(`"%x"`, fnv64(content))
	if code == 200 {
		h.Set("ETag", etag)
		if !p.whole {
			h.Set("Accept-Ranges", "bytes")
			code, content = netPart(req, h, content, etag)
		}
	}
	cl := int64(len(content))
	if p.noLen {
		cl = -1
	} else {
		h.Set("Content-Length", strconv.FormatInt(cl, 10))
	}
	resp := &http.Response{
		Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: cl, Request: req,
	}
	if req.Method == "HEAD" {
		resp.Body = http.NoBody
		return resp, nil
	}
	b := &simBody{req: i, plan: p, data: content, ctx: req}
	resp.Body = b
	netMark(i, true, false, false)
	return resp, nil
}

func fnv64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// netPart answers a conditional request or one for a part of the content.
func netPart(req *http.Request, h http.Header, content []byte, etag string) (int, []byte) {
	if m := req.Header.Get("If-None-Match"); m != "" && strings.Contains(m, etag) {
		return 304, nil
	}
	from := -1
	if n, err := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-", &from); n != 1 || err != nil || from < 0 {
		return 200, content
	}
	if ir := req.Header.Get("If-Range"); ir != "" && ir != etag {
		return 200, content
	}
	to := len(content) - 1
	var a, z int
	if n, _ := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &a, &z); n == 2 && z >= from && z < to {
		to = z
	}
	if from > to {
		h.Set("Content-Range", fmt.Sprintf("bytes */%d", len(content)))
		return 416, nil
	}
	h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to, len(content)))
	return 206, content[from : to+1]
}

type simBody struct {
	req    int
	plan   netPlan
	data   []byte
	pos    int
	closed bool
	ctx    *http.Request
}

var errClosedBody = errors.New("http: read on closed response body")

func (b *simBody) Read(p []byte) (int, error) {
	runtime.SimYield(0)
	if b.closed {
		return 0, errClosedBody
	}
	if err := b.ctx.Context().Err(); err != nil {
		return 0, err
	}
	if b.plan.delay > 0 {
		time.Sleep(b.plan.delay)
	}
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(b.data)
	var ferr error
	switch b.plan.kind {
	case netCut:
		limit, ferr = b.plan.at, io.ErrUnexpectedEOF
	case netRst:
		limit, ferr = b.plan.at, fmt.Errorf("read tcp: %w", syscall.ECONNRESET)
	case netTimeout:
		limit, ferr = b.plan.at, fmt.Errorf("read tcp: i/o timeout")
	}
	if limit > len(b.data) {
		limit = len(b.data)
	}
	if b.pos >= limit {
		if ferr != nil {
			netMark(b.req, false, false, true)
			return 0, ferr
		}
		return 0, io.EOF
	}
	n := limit - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.plan.chunk > 0 && n > b.plan.chunk {
		n = b.plan.chunk
	}
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	if b.plan.with && b.pos >= limit {
		if ferr != nil {
			netMark(b.req, false, false, true)
			return n, ferr
		}
		return n, io.EOF
	}
	return n, nil
}

func (b *simBody) Close() error {
	runtime.SimYield(0)
	b.closed = true
	netMark(b.req, false, true, false)
	return nil
}
