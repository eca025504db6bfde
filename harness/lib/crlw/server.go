// Package crlw is the world of the CRL programs: a fake web that serves CRLs
// for arbitrary http URLs (as a proxy) with faults, CAs and CCADB reports.
package crlw

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Resp is how the server answers one fetch of a URL.
type Resp struct {
	Kind    string // ok, status, trunc, reset, refuse, stall, redirect, badlen
	Body    []byte
	Code    int           // status for "status"
	Cut     int           // bytes of the body sent before trunc, reset and stall
	LastMod time.Time     // zero: no header
	Chunked bool          // no Content-Length
	Gzip    bool          // compress when the client accepts it
	NoRange bool          // ignore Range
	NoHead  bool          // HEAD is answered with 405
	HeadErr bool          // HEAD connections are closed
	HeadLag time.Duration // before HEAD is answered
	Target  string        // of a redirect
	Delay   time.Duration // before answering
	Slow    time.Duration // pause in the middle of the body
	Hook    func()        // called when the fetch arrives
	After   func()        // called after the whole answer has been written
}

type Hit struct {
	Method, URL string
	N           int // which GET of that URL
	Range       string
	Full        bool // the whole body was written
	Resp        *Resp
}

type Server struct {
	L    net.Listener
	Addr string
	srv  *http.Server
	mu   sync.Mutex
	plan map[string][]*Resp
	gets map[string]int
	hits []Hit
	Def  func(url string) *Resp // for URLs without a plan
	stop chan struct{}
}

func NewServer() *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{L: l, Addr: l.Addr().String(), plan: map[string][]*Resp{}, gets: map[string]int{}, stop: make(chan struct{})}
	s.srv = &http.Server{Handler: s, ErrorLog: nullLog}
	go s.srv.Serve(l)
	return s
}

func (s *Server) Close() {
	close(s.stop)
	s.srv.Close()
}

// URL is the direct (unproxied) URL of a path.
func (s *Server) URL(path string) string { return "http://" + s.Addr + path }

// Plan sets the answers to the next fetches of a URL; the last one repeats.
func (s *Server) Plan(url string, rs ...*Resp) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.plan[key(url)] = rs
	s.gets[key(url)] = 0
}

func (s *Server) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.plan = map[string][]*Resp{}
	s.gets = map[string]int{}
	s.hits = nil
}

func (s *Server) Hits(url string) []Hit {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []Hit
	for _, h := range s.hits {
		if url == "" || h.URL == key(url) {
			out = append(out, h)
		}
	}
	return out
}

// key is the URL as a request carries it (no fragment).
func key(u string) string {
	if i := strings.IndexByte(u, '#'); i >= 0 {
		u = u[:i]
	}
	return u
}

func (s *Server) pick(url string, get bool) (*Resp, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	rs, ok := s.plan[url]
	n := s.gets[url]
	if get {
		s.gets[url]++
	}
	if !ok || len(rs) == 0 {
		if s.Def != nil {
			return s.Def(url), n
		}
		return &Resp{Kind: "status", Code: 404, Body: []byte("not found")}, n
	}
	if n >= len(rs) {
		return rs[len(rs)-1], n
	}
	return rs[n], n
}

func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	u := r.RequestURI
	if strings.HasPrefix(u, "/") {
		u = "http://" + r.Host + u
	}
	if user, pass, ok := r.BasicAuth(); ok {
		u = strings.Replace(u, "://", "://"+url.UserPassword(user, pass).String()+"@", 1)
	}
	get := r.Method == "GET"
	rp, n := s.pick(u, get)
	s.mu.Lock()
	hi := len(s.hits)
	s.hits = append(s.hits, Hit{Method: r.Method, URL: u, N: n, Range: r.Header.Get("Range"), Resp: rp})
	s.mu.Unlock()
	if get && rp.Hook != nil {
		rp.Hook()
	}
	if rp.Delay > 0 {
		time.Sleep(rp.Delay)
	}
	if s.answer(w, r, rp) && get {
		s.mu.Lock()
		if hi < len(s.hits) {
			s.hits[hi].Full = true
		}
		s.mu.Unlock()
		if rp.After != nil {
			rp.After()
		}
	}
}

func (s *Server) hangup(w http.ResponseWriter, reset bool) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	if t, ok := c.(*net.TCPConn); ok && reset {
		t.SetLinger(0)
	}
	c.Close()
}

func (s *Server) answer(w http.ResponseWriter, r *http.Request, rp *Resp) bool {
	if r.Method == "HEAD" {
		if rp.HeadLag > 0 {
			select {
			case <-s.stop:
			case <-r.Context().Done():
			case <-time.After(rp.HeadLag):
			}
		}
		if rp.HeadErr || rp.Kind == "refuse" {
			s.hangup(w, false)
			return false
		}
		if rp.NoHead {
			w.WriteHeader(405)
			return false
		}
	}
	h := w.Header()
	h.Set("Content-Type", "application/pkix-crl")
	if !rp.LastMod.IsZero() {
		h.Set("Last-Modified", rp.LastMod.UTC().Format(http.TimeFormat))
	}
	switch rp.Kind {
	case "refuse":
		s.hangup(w, true)
		return false
	case "status":
		h.Set("Content-Length", strconv.Itoa(len(rp.Body)))
		w.WriteHeader(rp.Code)
		if r.Method != "HEAD" {
			w.Write(rp.Body)
		}
		return false
	case "part": // partial content nobody asked for
		if r.Method == "HEAD" {
			h.Set("Content-Length", strconv.Itoa(len(rp.Body)))
			w.WriteHeader(200)
			return false
		}
		part := rp.Body[min(rp.Cut, len(rp.Body)):]
		h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", rp.Cut, len(rp.Body)-1, len(rp.Body)))
		h.Set("Content-Length", strconv.Itoa(len(part)))
		w.WriteHeader(206)
		w.Write(part)
		return false
	case "redirect":
		h.Set("Location", rp.Target)
		w.WriteHeader(302)
		return false
	case "trunc", "reset", "stall":
		if rp.Chunked {
			h.Set("Transfer-Encoding", "chunked")
		} else {
			h.Set("Content-Length", strconv.Itoa(len(rp.Body)))
		}
		if r.Method == "HEAD" {
			h.Set("Content-Length", strconv.Itoa(len(rp.Body)))
			h.Del("Transfer-Encoding")
			w.WriteHeader(200)
			return false
		}
		c, bw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return false
		}
		fmt.Fprintf(bw, "HTTP/1.1 200 OK\r\n")
		h.Write(bw)
		fmt.Fprintf(bw, "\r\n")
		part := rp.Body[:min(rp.Cut, len(rp.Body))]
		if rp.Chunked {
			if len(part) > 0 {
				fmt.Fprintf(bw, "%x\r\n%s\r\n", len(part), part)
			}
		} else {
			bw.Write(part)
		}
		bw.Flush()
		if rp.Kind == "stall" {
			select {
			case <-s.stop:
			case <-r.Context().Done():
			case <-time.After(20 * time.Second):
			}
		}
		if t, ok := c.(*net.TCPConn); ok && rp.Kind == "reset" {
			time.Sleep(2 * time.Millisecond)
			t.SetLinger(0)
		}
		c.Close()
		return false
	}
	if !rp.NoRange && !rp.Chunked {
		// a standard file server: honours Range, If-Range and conditions
		http.ServeContent(slow(w, rp), r, "", rp.LastMod, bytes.NewReader(rp.Body))
		return r.Method == "GET" && r.Header.Get("Range") == ""
	}
	body := rp.Body
	if rp.Gzip && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(body)
		z.Close()
		body = b.Bytes()
		h.Set("Content-Encoding", "gzip")
	}
	if !rp.Chunked || r.Method == "HEAD" && !rp.Chunked {
		h.Set("Content-Length", strconv.Itoa(len(body)))
	}
	w.WriteHeader(200)
	if r.Method == "HEAD" {
		return false
	}
	sw := slow(w, rp)
	if rp.Chunked {
		w.(http.Flusher).Flush()
		half := len(body) / 2
		sw.Write(body[:half])
		w.(http.Flusher).Flush()
		sw.Write(body[half:])
		w.(http.Flusher).Flush()
	} else {
		sw.Write(body)
	}
	return true
}

type slowWriter struct {
	http.ResponseWriter
	d time.Duration
}

func slow(w http.ResponseWriter, rp *Resp) http.ResponseWriter {
	if rp.Slow == 0 {
		return w
	}
	return &slowWriter{w, rp.Slow}
}

func (s *slowWriter) Write(b []byte) (int, error) {
	n, err := s.ResponseWriter.Write(b[:len(b)/2])
	if err != nil {
		return n, err
	}
	s.ResponseWriter.(http.Flusher).Flush()
	time.Sleep(s.d)
	m, err := s.ResponseWriter.Write(b[len(b)/2:])
	return n + m, err
}
