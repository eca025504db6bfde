package ctsrv

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/mod/sumdb/tlog"

	"vharness/lib/der"
)

// Resp scripts the answer to one request.
type Resp struct {
	Status  int           // 0: 200
	Body    []byte        // replaces the body when non-nil or Status != 0
	Abort   bool          // close the connection without an answer
	Partial bool          // announce the full length, send half
	Delay   time.Duration // before answering
	Pre     func()        // called before answering
	Header  map[string]string
}

// Item is one get-entries element.
type Item struct {
	Leaf  []byte `json:"leaf_input"`
	Extra []byte `json:"extra_data"`
}

// Req is one request as seen by a log.
type Req struct {
	Ep         string // sth, proof, entries, checkpoint, data, tile, issuer
	N          int    // how many requests to this endpoint came before
	Start, End uint64 // entries: range; proof: first, second
	Path       string
}

type Log struct {
	mu      sync.Mutex
	srv     *Server
	ID      int
	Tiled   bool
	Key     *der.Key
	LogID   [32]byte
	MMD     uint64
	Desc    string
	Host    string // host:port under which the log is configured
	Entries []*Entry
	Off     uint64 // filler entries before Entries
	Filler  *Entry
	merkle  Merkle
	Size    uint64 // size of the published tree head
	STHTime uint64

	Hook        func(r Req) *Resp
	Chunk       func(start, end uint64) uint64 // number of entries to return
	TamperItems func(start uint64, items []Item) []Item
	TamperProof func(old, size uint64, p [][]byte) [][]byte
	TamperTile  func(t tlog.Tile, data []byte) []byte
	BadSig      bool // checkpoint with a wrong signature
	TamperRoot  bool

	Reqs   []Req
	counts map[string]int
}

// Server hosts many logs on one loopback listener.
type Server struct {
	Addr string
	mu   sync.Mutex
	logs map[string]*Log
	hs   *http.Server
	n    int
	// Stray counts requests to unknown paths.
	Stray []string
}

func NewServer() (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{Addr: l.Addr().String(), logs: map[string]*Log{}}
	s.hs = &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0)}
	go s.hs.Serve(l)
	return s, nil
}

func (s *Server) Close() { s.hs.Close() }

// NewLog adds an empty log. Its URL is http://<addr>/<name>/.
func (s *Server) NewLog(tiled bool, mmd uint64) *Log {
	k := der.NewKey()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	lg := &Log{srv: s, ID: s.n, Tiled: tiled, Key: k, LogID: sha256.Sum256(k.SPKI), MMD: mmd, counts: map[string]int{}, Host: s.Addr}
	lg.Desc = fmt.Sprintf("log%d", s.n)
	switch s.n % 5 { // descriptions are no identity
	case 1:
		lg.Desc = ""
	case 3, 4:
		lg.Desc = "Example log"
	}
	s.logs[lg.Name()] = lg
	return lg
}

func (l *Log) Name() string {
	if l.Tiled {
		return fmt.Sprintf("t%d", l.ID)
	}
	return fmt.Sprintf("r%d", l.ID)
}
func (l *Log) URL() string      { return "http://" + l.Host + "/" + l.Name() + "/" }
func (l *Log) ShortURL() string { return l.Host + "/" + l.Name() }
func (l *Log) LogIDB64() string { return base64.StdEncoding.EncodeToString(l.LogID[:]) }

// Meta is the log's Remote Settings record.
func (l *Log) Meta(enrolled bool) map[string]any {
	return map[string]any{"crlite_enrolled": enrolled, "description": l.Desc, "key": base64.StdEncoding.EncodeToString(l.Key.SPKI),
		"logID": l.LogIDB64(), "mmd": l.MMD, "url": l.URL(), "tiled": l.Tiled}
}

// Append adds entries to the log (not yet to the published tree head).
func (l *Log) Append(es ...*Entry) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range es {
		if l.Tiled {
			l.merkle.Add(e.LeafInput(TileExt(int64(l.Len()))))
		} else {
			l.merkle.Add(e.leaf())
		}
		l.Entries = append(l.Entries, e)
	}
}

// SetOffset makes the (still empty) log start with n copies of one entry. A
// tiled log cannot serve them.
func (l *Log) SetOffset(n uint64, filler *Entry) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Off, l.Filler = n, filler
	l.merkle.SetOffset(n, filler.leaf())
}

// Len is the number of entries, At returns one of them.
func (l *Log) Len() uint64 { return l.Off + uint64(len(l.Entries)) }

func (l *Log) At(i uint64) *Entry {
	if i < l.Off {
		return l.Filler
	}
	return l.Entries[i-l.Off]
}

// Publish sets the tree head.
func (l *Log) Publish(size, ts uint64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Size, l.STHTime = size, ts
}

func (l *Log) SetHook(h func(r Req) *Resp) {
	l.mu.Lock()
	l.Hook = h
	l.mu.Unlock()
}

func (l *Log) TakeReqs() []Req {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := l.Reqs
	l.Reqs = nil
	return r
}

func (l *Log) ResetCounts() {
	l.mu.Lock()
	l.counts = map[string]int{}
	l.mu.Unlock()
}

func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	s.mu.Lock()
	l := s.logs[parts[0]]
	if l == nil || len(parts) < 2 {
		s.Stray = append(s.Stray, r.URL.Path)
	}
	s.mu.Unlock()
	if l == nil || len(parts) < 2 {
		http.NotFound(w, r)
		return
	}
	l.serve(w, r, parts[1])
}

func (l *Log) serve(w http.ResponseWriter, r *http.Request, path string) {
	req := Req{Path: path}
	q := r.URL.Query()
	num := func(k string) uint64 { v, _ := strconv.ParseUint(q.Get(k), 10, 64); return v }
	switch {
	case path == "ct/v1/get-sth":
		req.Ep = "sth"
	case path == "ct/v1/get-sth-consistency":
		req.Ep = "proof"
		req.Start, req.End = num("first"), num("second")
	case path == "ct/v1/get-entries":
		req.Ep = "entries"
		req.Start, req.End = num("start"), num("end")
	case path == "checkpoint":
		req.Ep = "checkpoint"
	case strings.HasPrefix(path, "issuer/"):
		req.Ep = "issuer"
	case strings.HasPrefix(path, "tile/data/"):
		req.Ep = "data"
	case strings.HasPrefix(path, "tile/"):
		req.Ep = "tile"
	default:
		req.Ep = "other"
	}
	l.mu.Lock()
	req.N = l.counts[req.Ep]
	l.counts[req.Ep]++
	l.Reqs = append(l.Reqs, req)
	hook := l.Hook
	l.mu.Unlock()
	var rs *Resp
	if hook != nil {
		rs = hook(req)
	}
	if rs == nil {
		rs = &Resp{}
	}
	if rs.Pre != nil {
		rs.Pre()
	}
	if rs.Delay > 0 {
		select {
		case <-time.After(rs.Delay):
		case <-r.Context().Done():
			return
		}
	}
	if rs.Abort {
		panic(http.ErrAbortHandler)
	}
	for k, v := range rs.Header {
		w.Header().Set(k, v)
	}
	body := rs.Body
	status := rs.Status
	if status == 0 {
		status = 200
		if body == nil {
			status, body = l.answer(req)
		}
	}
	w.Header().Set("Content-Length", strconv.Itoa(len(body)))
	w.WriteHeader(status)
	if rs.Partial {
		w.Write(body[:len(body)/2])
		panic(http.ErrAbortHandler)
	}
	w.Write(body)
}

func (l *Log) answer(req Req) (int, []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	js := func(v any) (int, []byte) { b, _ := json.Marshal(v); return 200, b }
	switch req.Ep {
	case "sth":
		root := l.merkle.Root(l.Size)
		return js(map[string]any{"tree_size": l.Size, "timestamp": l.STHTime, "sha256_root_hash": root[:], "tree_head_signature": []byte{4, 3, 0, 1, 0}})
	case "proof":
		if req.Start > req.End || req.End > l.Len() {
			return 400, []byte("bad proof request")
		}
		p := [][]byte{}
		for _, h := range l.merkle.Consistency(req.Start, req.End) {
			p = append(p, append([]byte(nil), h[:]...))
		}
		if l.TamperProof != nil {
			p = l.TamperProof(req.Start, req.End, p)
		}
		return js(map[string]any{"consistency": p})
	case "entries":
		if req.Start > req.End || req.Start >= l.Size {
			return 400, []byte("bad entries request")
		}
		end := req.End
		if end >= l.Size {
			end = l.Size - 1
		}
		n := end - req.Start + 1
		if l.Chunk != nil {
			if c := l.Chunk(req.Start, end); c < n {
				n = c
			}
		}
		items := []Item{}
		for i := req.Start; i < req.Start+n; i++ {
			items = append(items, Item{l.At(i).leaf(), l.At(i).ExtraData()})
		}
		if l.TamperItems != nil {
			items = l.TamperItems(req.Start, items)
		}
		return js(map[string]any{"entries": items})
	case "checkpoint":
		return 200, []byte(l.checkpoint())
	case "issuer":
		fp := strings.TrimPrefix(req.Path, "issuer/")
		for _, e := range l.Entries {
			for _, c := range e.Chain {
				h := sha256.Sum256(c)
				if hex.EncodeToString(h[:]) == fp {
					return 200, c
				}
			}
		}
		return 404, []byte("no such issuer")
	case "data", "tile":
		t, err := tlog.ParseTilePath("tile/8/" + strings.TrimPrefix(req.Path, "tile/"))
		if err != nil {
			return 400, []byte(err.Error())
		}
		var b []byte
		if t.L == -1 {
			for i := t.N * 256; i < t.N*256+int64(t.W); i++ {
				if uint64(i) >= l.Size || uint64(i) < l.Off {
					return 404, []byte("not yet")
				}
				b = append(b, l.At(uint64(i)).TileLeaf(i)...)
			}
		} else {
			lv := 8 * t.L
			for i := t.N * 256; i < t.N*256+int64(t.W); i++ {
				h, ok := l.merkle.Node(lv, uint64(i))
				if !ok || (uint64(i)+1)<<uint(lv) > l.Size {
					return 404, []byte("not yet")
				}
				b = append(b, h[:]...)
			}
		}
		if l.TamperTile != nil {
			b = l.TamperTile(t, b)
		}
		return 200, b
	}
	return 404, []byte("not found")
}

func (l *Log) origin() string { return "verif.example/" + l.Name() }

// checkpoint is a signed note with an RFC 6962 note signature.
func (l *Log) checkpoint() string {
	root := l.merkle.Root(l.Size)
	if l.TamperRoot {
		root[7] ^= 0x40
	}
	text := fmt.Sprintf("%s\n%d\n%s\n", l.origin(), l.Size, base64.StdEncoding.EncodeToString(root[:]))
	// TreeHeadSignature input
	b := []byte{0, 1}
	b = binary.BigEndian.AppendUint64(b, l.STHTime)
	b = binary.BigEndian.AppendUint64(b, l.Size)
	b = append(b, root[:]...)
	if l.BadSig {
		b[0] = 9
	}
	d := sha256.Sum256(b)
	sig, err := ecdsa.SignASN1(rand.Reader, l.Key.Priv.(*ecdsa.PrivateKey), d[:])
	if err != nil {
		panic(err)
	}
	_ = crypto.SHA256
	h := sha256.New()
	h.Write([]byte(l.origin()))
	h.Write([]byte("\n"))
	h.Write([]byte{5})
	h.Write(l.LogID[:])
	out := h.Sum(nil)[:4]
	out = binary.BigEndian.AppendUint64(out, l.STHTime)
	out = append(out, 4, 3)
	out = binary.BigEndian.AppendUint16(out, uint16(len(sig)))
	out = append(out, sig...)
	return text + "\n\u2014 " + l.origin() + " " + base64.StdEncoding.EncodeToString(out) + "\n"
}

// RangeHash is the hash of the subtree over entries [a, b). The caller must be
// inside one of the log's callbacks or otherwise exclude changes.
func (l *Log) RangeHash(a, b uint64) [32]byte { return l.merkle.Range(a, b) }
func (l *Log) Lock()                          { l.mu.Lock() }
func (l *Log) Unlock()                        { l.mu.Unlock() }
