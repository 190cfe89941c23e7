// Package harness runs plans against the instrumented library.
package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifsim/model"
	"verifsim/plan"
	"verifsim/rt"
)

// The simulated outside world: HTTP servers, file systems and their faults.
// During tasks it is touched only from //go:norace functions on preallocated
// arrays, so that it adds no happens-before edges and no reports of its own.

const (
	siteIO   = 4
	siteCB   = 5
	siteOp   = 6
	maxEv    = 1 << 14
	maxH     = 4096
	osMarker = "{OS}"
)

// Ev is an event of the simulated world.
type Ev struct {
	Step  int64
	Phase int
	Task  int
	Op    int
	Kind  string // get, open, close, readclosed, eof, fault
	URL   string
	Store string
	H     int
	Fault string
}

type handle struct {
	open   bool
	closed bool
	url    string
	phase  int
	task   int
	op     int
}

var (
	evs      [maxEv]Ev
	nev      int
	handles  [maxH]handle
	nh       int
	resv     []plan.Res
	resPath  []string
	attempts [512]int
	faultv   []plan.Fault
	faultsOn bool
	phase    int
	curOp    [rt.MaxTasks]int
	fired    [maxEv]string
	nfired   int
	scratch  string
	overflow bool
)

//go:norace
func addEv(kind, url, store string, h int, fault string) {
	if nev >= maxEv {
		overflow = true
		return
	}
	e := &evs[nev]
	nev++
	e.Step = rt.Steps()
	e.Phase = phase
	t := 0
	if rt.Active() {
		t = rt.Owner()
	}
	e.Task = t
	e.Op = curOp[t]
	e.Kind = kind
	e.URL = url
	e.Store = store
	e.H = h
	e.Fault = fault
	rt.Note(kind)
	rt.Note(bare(url))
	if fault != "" {
		fired[nfired] = fault
		nfired++
	}
}

// bare hides the random name of the scratch directory.
//
//go:norace
func bare(url string) string {
	n := len("file://") + len(scratch)
	if scratch != "" && len(url) > n && url[len("file://"):n] == scratch {
		return url[n:]
	}
	return url
}

// leakOf names a handle of the current call that is still open.
//
//go:norace
func leakOf() string {
	t := 0
	if rt.Active() {
		t = rt.Owner()
	}
	for i := 0; i < nh; i++ {
		h := &handles[i]
		if h.phase == phase && h.task == t && h.op == curOp[t] && h.open && !h.closed {
			return h.url
		}
	}
	return ""
}

// firedOf lists the faults that hit the current call.
//
//go:norace
func firedOf() []string {
	t := 0
	if rt.Active() {
		t = rt.Owner()
	}
	n := 0
	for i := 0; i < nev; i++ {
		if e := &evs[i]; e.Kind == "fault" && e.Phase == phase && e.Task == t && e.Op == curOp[t] {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	out := make([]string, 0, n)
	for i := 0; i < nev; i++ {
		if e := &evs[i]; e.Kind == "fault" && e.Phase == phase && e.Task == t && e.Op == curOp[t] {
			out = append(out, e.Fault+" "+e.URL)
		}
	}
	return out
}

//go:norace
func setOp(i int) {
	t := 0
	if rt.Active() {
		t = rt.Owner()
	}
	curOp[t] = i
}

//go:norace
func newHandle(url string) int {
	if nh >= maxH {
		overflow = true
		return maxH - 1
	}
	t := 0
	if rt.Active() {
		t = rt.Owner()
	}
	handles[nh] = handle{open: true, url: url, phase: phase, task: t, op: curOp[t]}
	nh++
	return nh - 1
}

//go:norace
func isClosed(h int) bool { return handles[h].closed }

//go:norace
func closeHandle(h int) bool {
	was := handles[h].closed
	handles[h].closed = true
	return was
}

//go:norace
func findRes(store, key string) int {
	for i := range resv {
		if resv[i].Store == store && (resv[i].URL == key || resPath[i] == key && store != "http") {
			return i
		}
	}
	return -1
}

//go:norace
func attempt(i int) int { attempts[i]++; return attempts[i] - 1 }

//go:norace
func faultFor(url string, n int) (plan.Fault, bool) {
	if !faultsOn {
		return plan.Fault{}, false
	}
	for i := range faultv {
		if faultv[i].URL == url && (faultv[i].Nth == n || faultv[i].Nth < 0) {
			return faultv[i], true
		}
	}
	return plan.Fault{}, false
}

//go:norace
func setFaults(on bool) { faultsOn = on }

//go:norace
func setBody(i int, b string) { resv[i].Body = b }

//go:norace
func bodyOf(i int) string { return resv[i].Body }

//go:norace
func resAt(i int) plan.Res { return resv[i] }

// What operations that fail return. Callers see errors of many kinds; none of
// them means that everything is fine.
var (
	errReset = errors.New("read tcp 192.0.2.1:80: connection reset by peer")
	addr     = &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 80}
	readErrs = []error{
		errReset, errReset, errReset,
		&net.OpError{Op: "read", Net: "tcp", Addr: addr, Err: os.NewSyscallError("read", syscall.ECONNRESET)},
		&net.OpError{Op: "read", Net: "tcp", Addr: addr, Err: os.ErrDeadlineExceeded},
		&os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
		&os.PathError{Op: "read", Path: "x", Err: syscall.EINTR},
		&os.PathError{Op: "read", Path: "x", Err: syscall.EAGAIN},
		syscall.EINTR, os.ErrClosed, io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, context.DeadlineExceeded,
		fmt.Errorf("connection lost: %w", io.EOF),
		fmt.Errorf("connection lost: %w", io.ErrUnexpectedEOF),
		http.ErrBodyReadAfterClose,
		&net.OpError{Op: "read", Net: "tcp", Addr: addr, Err: io.EOF},
	}
	openErrs = []error{errors.New("input/output error"), syscall.EIO, syscall.EMFILE, syscall.EACCES, os.ErrPermission, syscall.ENOENT, os.ErrNotExist, syscall.EINTR, syscall.ENOTDIR, syscall.ELOOP, os.ErrInvalid, syscall.ESTALE}
	dialErrs = []error{
		errors.New("dial tcp 192.0.2.1:80: connect: connection refused"),
		&net.OpError{Op: "dial", Net: "tcp", Addr: addr, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)},
		&net.OpError{Op: "dial", Net: "tcp", Addr: addr, Err: os.ErrDeadlineExceeded},
		&net.DNSError{Err: "no such host", Name: "a.test", IsNotFound: true},
		&net.DNSError{Err: "server misbehaving", Name: "a.test", IsTemporary: true},
		io.EOF, io.ErrUnexpectedEOF, context.Canceled, http.ErrHandlerTimeout, http.ErrServerClosed, syscall.EPIPE,
	}
)

// passes tells whether another attempt may succeed after err.
func passes(err error) bool {
	var t interface{ Timeout() bool }
	return errors.Is(err, syscall.EINTR) || errors.Is(err, syscall.EAGAIN) || errors.As(err, &t) && t.Timeout()
}

// stream is a file or body under simulation.
type stream struct {
	h       int
	url     string
	store   string
	data    string
	pos     int
	chunk   int
	failAt  int // -1 none
	failErr error
	kind    string
	joined  bool // error delivered together with data
	reads   int
	fdone   bool
	name    string
	full    int // the announced length, -1 none
}

func (s *stream) Read(p []byte) (int, error) {
	rt.Y(siteIO)
	if err := fireIO("read:", s.url); err != nil {
		return 0, err
	}
	if isClosed(s.h) {
		addEv("readclosed", s.url, s.store, s.h, "")
		return 0, os.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	s.reads++
	if s.chunk > 0 && (s.reads+s.chunk)%7 == 0 {
		return 0, nil // allowed, means nothing
	}
	limit := len(s.data)
	if s.failAt >= 0 && s.failAt < limit {
		limit = s.failAt
	}
	if s.pos >= limit {
		return s.end(0)
	}
	n := limit - s.pos
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.pos >= limit && s.joined {
		return s.end(n)
	}
	return n, nil
}

func (s *stream) end(n int) (int, error) {
	if s.failAt >= 0 {
		if !s.fdone {
			s.fdone = true
			addEv("fault", s.url, s.store, s.h, s.kind)
		}
		if passes(s.failErr) {
			s.failAt = -1
		}
		return n, s.failErr
	}
	return n, io.EOF
}

func (s *stream) Close() error {
	rt.Y(siteIO)
	fireIO("close:", s.url)
	if closeHandle(s.h) {
		return os.ErrClosed
	}
	addEv("close", s.url, s.store, s.h, "")
	return nil
}

// cutState tells what is left of a document that ends early at off: 0 the same
// document, 1 no document, 2 another document.
func cutState(s string, off int) int {
	if strings.TrimSpace(s[off:]) == "" {
		return 0
	}
	if _, err := model.Decode(s[:off]); err != nil {
		return 1
	}
	return 2
}

func openStream(i int, url, store string, f plan.Fault, hit bool) *stream {
	r := resAt(i)
	s := &stream{h: newHandle(url), url: url, store: store, data: r.Body, chunk: r.Chunk, failAt: -1, joined: r.Chunk%2 == 1}
	s.full = -1
	if (len(s.data)+r.Chunk)%2 == 0 && (!hit || f.Kind != "trunc" && f.Off < len(s.data)) {
		s.full = len(s.data)
	}
	if m := len(r.Body) / 2000; s.chunk > 0 && s.chunk < m {
		s.chunk = m // a large body takes many reads, but not arbitrarily many
	}
	if hit {
		off := f.Off
		if off > len(s.data) {
			off = len(s.data)
		}
		switch f.Kind {
		case "reset":
			s.failAt, s.failErr, s.kind = off, readErrs[(f.Off+len(url))%len(readErrs)], f.Kind
		case "short":
			s.failAt, s.failErr, s.kind = off, io.ErrUnexpectedEOF, f.Kind
		case "timeout":
			s.failAt, s.failErr, s.kind = off, os.ErrDeadlineExceeded, f.Kind
		case "trunc":
			switch cutState(s.data, off) {
			case 0: // nothing but white space is lost
				s.data = s.data[:off]
			case 1:
				s.failAt, s.failErr, s.kind = off, io.EOF, f.Kind
			case 2:
				s.failAt, s.failErr, s.kind = off, io.EOF, "trunc?"
			}
		}
		if f.Arg == 1 {
			s.joined = true
		}
	}
	return s
}

// transport is installed as http.DefaultTransport.
type transport struct{}

// headers are what a server says besides the document; nothing depends on them.
func headers(key string) http.Header {
	h := http.Header{}
	x := hashStr(key)
	if t := []string{"", "application/json", "application/schema+json", "text/plain; charset=utf-8", "text/html", "application/octet-stream", "text/json;charset=iso-8859-1"}[x%7]; t != "" {
		h.Set("Content-Type", t)
	}
	switch (x >> 8) % 5 {
	case 0:
		h.Set("Cache-Control", "no-store, max-age=0")
	case 1:
		h.Set("Etag", "\"0\"")
		h.Set("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT")
	case 2:
		h.Set("Warning", "299 - \"deprecated\"")
	}
	return h
}

func (transport) RoundTrip(req *http.Request) (*http.Response, error) {
	rt.Y(siteIO)
	u := *req.URL
	u.Fragment = ""
	key := u.String()
	if u.Scheme != "http" && u.Scheme != "https" {
		addEv("get", key, "http", -1, "")
		return nil, fmt.Errorf("unsupported protocol scheme %q", u.Scheme)
	}
	rt.Advance(3 * time.Millisecond)
	if err := fireIO("get:", key); err != nil {
		return nil, err
	}
	i := findRes("http", key)
	mk := func(code int, body *stream) *http.Response {
		return &http.Response{
			Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code,
			Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: headers(key), Body: body, ContentLength: int64(body.full), Request: req,
		}
	}
	if i < 0 {
		addEv("get", key, "http", -1, "")
		s := &stream{h: newHandle(key), url: key, store: "http", data: "not found", failAt: -1, full: 9}
		return mk(404, s), nil
	}
	r := resAt(i)
	n := attempt(i)
	f, hit := faultFor(key, n)
	addEv("get", key, "http", i, "")
	rt.Y(siteIO)
	if r.Slow > 0 {
		rt.Advance(time.Duration(r.Slow) * time.Millisecond)
	}
	if hit {
		switch f.Kind {
		case "dial":
			addEv("fault", key, "http", -1, f.Kind)
			return nil, dialErrs[(f.Off+len(key))%len(dialErrs)]
		case "stall":
			rt.Advance(30 * time.Second)
			addEv("fault", key, "http", -1, f.Kind)
			return nil, os.ErrDeadlineExceeded
		case "status":
			addEv("fault", key, "http", -1, f.Kind)
			return mk(f.Arg, openStream(i, key, "http", plan.Fault{}, false)), nil
		case "redirloop":
			addEv("fault", key, "http", -1, f.Kind)
			resp := mk(302, &stream{h: newHandle(key), url: key, store: "http", data: "moved", failAt: -1, full: -1})
			resp.Header.Set("Location", key+"/loop")
			return resp, nil
		}
	}
	if r.Redirect != "" {
		code := r.Code
		if code == 0 {
			code = 302
		}
		resp := mk(code, &stream{h: newHandle(key), url: key, store: "http", data: "moved", failAt: -1, full: -1})
		resp.Header.Set("Location", r.Redirect)
		return resp, nil
	}
	if r.Code != 0 && r.Code != 200 {
		return mk(r.Code, openStream(i, key, "http", f, hit)), nil
	}
	return mk(200, openStream(i, key, "http", f, hit)), nil
}

// simFS is a simulated http.FileSystem.
type simFS struct{ id int }

func (fs simFS) store() string { return fmt.Sprintf("fs%d", fs.id) }

func (fs simFS) Open(name string) (http.File, error) {
	rt.Y(siteIO)
	store := fs.store()
	rt.Advance(time.Millisecond)
	i := findRes(store, name)
	if i < 0 {
		addEv("open", "file://"+name, store, -1, "")
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	n := attempt(i)
	key := resAt(i).URL
	if err := fireIO("open:", key); err != nil {
		return nil, err
	}
	f, hit := faultFor(key, n)
	addEv("open", key, store, i, "")
	if hit {
		switch f.Kind {
		case "dial", "stall", "status", "redirloop":
			addEv("fault", key, store, -1, "open")
			return nil, &os.PathError{Op: "open", Path: name, Err: openErrs[(f.Off+len(key))%len(openErrs)]}
		}
	}
	s := openStream(i, key, store, f, hit)
	s.name = filepath.Base(name)
	return simFile{s}, nil
}

type simFile struct{ *stream }

func (f simFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	case io.SeekEnd:
		f.pos = len(f.data) + int(off)
	}
	if f.pos < 0 {
		f.pos = 0
	}
	return int64(f.pos), nil
}
func (f simFile) Readdir(int) ([]os.FileInfo, error) { return nil, errors.New("not a directory") }
func (f simFile) Stat() (os.FileInfo, error)         { return simInfo{f.stream}, nil }

type simInfo struct{ s *stream }

func (i simInfo) Name() string       { return i.s.name }
func (i simInfo) Size() int64        { return int64(len(i.s.data)) }
func (i simInfo) Mode() os.FileMode  { return 0o644 }
func (i simInfo) ModTime() time.Time { return time.Unix(1_600_000_000, 0) }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() interface{}   { return nil }

// Scratch returns the worker's scratch directory for the real file system.
func Scratch() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verifsim")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

// Cleanup removes the scratch directory.
func Cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func sub(s string) string {
	if !strings.Contains(s, osMarker) {
		return s
	}
	return strings.ReplaceAll(s, osMarker, Scratch())
}

func pathOf(u string) string {
	p, err := url.Parse(u)
	if err != nil {
		return ""
	}
	return p.Path
}

// osDirty: the last plan put files into the scratch directory.
var osDirty bool

// resetWorld loads a plan's resources. No task is running.
func resetWorld(p *plan.Plan) {
	nev, nh, nfired, phase = 0, 0, 0, 0
	overflow = false
	faultsOn = true
	resv = nil
	resPath = nil
	attempts = [512]int{}
	curOp = [rt.MaxTasks]int{}
	usesOS := false
	for _, r := range p.Res {
		r.URL, r.Body, r.Redirect = sub(r.URL), sub(r.Body), sub(r.Redirect)
		resv = append(resv, r)
		resPath = append(resPath, pathOf(r.URL))
		usesOS = usesOS || r.Store == "os"
	}
	faultv = nil
	for _, f := range p.Faults {
		f.URL = sub(f.URL)
		faultv = append(faultv, f)
	}
	if usesOS || osDirty {
		osDirty = usesOS
		d := Scratch()
		es, _ := os.ReadDir(d)
		for _, e := range es {
			os.RemoveAll(filepath.Join(d, e.Name()))
		}
		for i, r := range resv {
			if r.Store == "os" {
				writeOS(i)
			}
		}
	}
}

// writeOS materialises an OS resource, with its fault if faults are on.
func writeOS(i int) {
	r := resv[i]
	pth := resPath[i]
	if !strings.HasPrefix(pth, Scratch()+"/") {
		panic("OS resource outside scratch: " + pth)
	}
	os.RemoveAll(pth)
	os.MkdirAll(filepath.Dir(pth), 0o755)
	if f, hit := faultFor(r.URL, 0); hit {
		switch f.Kind {
		case "dial", "stall", "status", "redirloop":
			return // missing
		case "reset", "short", "timeout":
			os.MkdirAll(pth, 0o755) // reading fails with EISDIR
			return
		case "trunc":
			off := f.Off
			if off > len(r.Body) {
				off = len(r.Body)
			}
			os.WriteFile(pth, []byte(r.Body[:off]), 0o644)
			return
		}
	}
	os.WriteFile(pth, []byte(r.Body), 0o644)
}

// heal stops all faults.
func heal() {
	setFaults(false)
	for i := range resv {
		if resv[i].Store == "os" {
			writeOS(i)
		}
	}
}

func openFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && scratch != "" && strings.HasPrefix(l, scratch) {
			n++
		}
	}
	return n
}
