package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"syscall"

	simhttp "github.com/KitchenMishap/pudding-shed/verifsim/simhttp"
	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

// ---- the simulated Bitcoin Core REST server and the network in front of it

const (
	nfConn     = iota // connection refused / reset before any response
	nf503             // 503 Service Unavailable
	nf404             // 404 Not Found
	nfTruncate        // the connection drops in the middle of the body
	nfReadErr         // the body read fails at once
	nfCloseErr        // closing the body reports an error
	nfGarbage         // 200, but with a body that is something else (headers and JSON only)
	nfPartial         // 200, complete but delivered in tiny pieces (benign)
	nfStall           // very slow answer (benign)
	nfN
)

var nfNames = [...]string{"net:connection-reset", "net:503", "net:404", "net:truncated-body", "net:body-read-error", "net:close-error", "net:foreign-body", "net:tiny-reads", "net:stall"}

type node struct {
	c        *Ctx
	ch       *gChain
	tip      int // index of the tip block the node knows (chain may be cut)
	prob     float64
	kinds    []int
	perURL   map[string]int // disruptive faults given per URL so far
	maxURL   int            // at most this many disruptive faults per block URL
	maxHdr   int            // and per header URL
	latency  int            // ms scale; 0: no latency
	gets     map[string]int
	hdrGets  int
	hdrFault int
	open     int // bodies not yet closed
	maxOpen  int
	inflight int
	maxIn    int
	badURL   string
	armed    bool
	onHdr    func()
	always   func(string) int
	perPath  map[string]int // answers given per path, for the checks
}

func (c *Ctx) newNode(ch *gChain) *node {
	n := &node{c: c, ch: ch, tip: len(ch.blocks) - 1, perURL: map[string]int{}, perPath: map[string]int{}, gets: map[string]int{}, armed: true, maxURL: 2, maxHdr: 0}
	simhttp.RT = n.roundTrip
	c.node = n
	return n
}

func disruptive(k int) bool { return k <= nfGarbage }

func (n *node) fault(url string, isHdr bool) int {
	if n.always != nil {
		if k := n.always(url); k >= 0 {
			n.c.Faults[nfNames[k]]++
			return k
		}
	}
	if !n.armed || n.prob == 0 || len(n.kinds) == 0 {
		return -1
	}
	v := n.c.Sim.DrawProb(simrt.StreamNet, n.prob, 1<<12)
	if v == 0 {
		return -1
	}
	k := n.kinds[(v-1)%len(n.kinds)]
	if k == nfGarbage && strings.HasSuffix(url, ".bin") && !isHdr {
		return -1
	}
	if disruptive(k) {
		lim := n.maxURL
		if isHdr {
			lim = n.maxHdr
		}
		if lim >= 0 && n.perURL[url] >= lim {
			return -1
		}
		n.perURL[url]++
		if isHdr {
			n.hdrFault++
		}
	}
	n.c.Faults[nfNames[k]]++
	n.c.Sim.Log("NET %s on %s", nfNames[k], url[max(0, len(url)-24):])
	return k
}

type body struct {
	n     *node
	r     *bytes.Reader
	fault int
	chunk int
	cut   int
	done  bool
}

func (b *body) Read(p []byte) (int, error) {
	simrt.P()
	if b.done {
		return 0, errors.New("http: read on closed response body")
	}
	if b.fault == nfReadErr {
		return 0, &netErr{"read tcp 127.0.0.1:50000->127.0.0.1:8332: read: connection reset by peer"}
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	if b.fault == nfTruncate {
		if b.cut <= 0 {
			return 0, io.ErrUnexpectedEOF
		}
		if len(p) > b.cut {
			p = p[:b.cut]
		}
	}
	k, err := b.r.Read(p)
	b.cut -= k
	return k, err
}
func (b *body) Close() error {
	simrt.P()
	if !b.done {
		b.done = true
		b.n.open--
	}
	if b.fault == nfCloseErr {
		return &netErr{"close tcp: connection reset by peer"}
	}
	return nil
}

type netErr struct{ s string }

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return false }
func (e *netErr) Temporary() bool { return true }
func (e *netErr) Unwrap() error   { return syscall.ECONNRESET }

func (n *node) roundTrip(rq *http.Request) (*http.Response, error) {
	simrt.P()
	url := rq.URL.String()
	n.inflight++
	n.maxIn = max(n.maxIn, n.inflight)
	defer func() { n.inflight-- }()
	if n.latency > 0 {
		d := n.c.Sim.Draw(simrt.StreamNet, 1000)
		simrt.Sleep(int64(n.latency) * 1000 * int64(d*d/1000+1))
	}
	path := rq.URL.Path
	n.perPath[path]++
	isHdr := strings.HasPrefix(path, "/rest/headers/")
	k := n.fault(url, isHdr)
	if k == nfStall {
		simrt.Sleep(int64(n.c.Range(1, 40)) * 1e9)
	}
	if k == nfConn {
		return nil, &netErr{"dial tcp 127.0.0.1:8332: connect: connection reset by peer"}
	}
	mk := func(code int, data []byte) *http.Response {
		n.open++
		n.maxOpen = max(n.maxOpen, n.open)
		b := &body{n: n, r: bytes.NewReader(data), fault: k}
		if k == nfPartial {
			b.chunk = 1 + len(data)/23
		}
		if k == nfTruncate {
			b.cut = len(data) * n.c.side.Intn(100) / 100
			if b.cut >= len(data) {
				b.cut = len(data) - 1
			}
			if n.c.side.Intn(4) == 0 {
				b.cut = 0
			}
		}
		return &http.Response{Status: strconv.Itoa(code) + " " + http.StatusText(code), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: b, ContentLength: int64(len(data)), Request: rq}
	}
	switch k {
	case nf503:
		return mk(503, []byte("Service temporarily unavailable: Loading block index...\r\n")), nil
	case nf404:
		return mk(404, []byte("not found\r\n")), nil
	}
	if k == nfGarbage {
		text := []byte("<html><body><h1>Warming up</h1>" + strings.Repeat("please wait ", n.c.side.Intn(900)) + "</body></html>")
		if len(text)%80 == 0 {
			text = append(text, 10)
		}
		return mk(200, text), nil
	}
	parts := strings.Split(path, "/")
	if n.onHdr != nil && isHdr {
		n.onHdr()
	}
	if isHdr && len(parts) == 5 {
		n.hdrGets++
		count, _ := strconv.Atoi(parts[3])
		if count > 2000 {
			n.badURL = url
			return mk(400, []byte("Header count is invalid or out of acceptable range (1-2000): "+parts[3]+"\r\n")), nil
		}
		hx := strings.TrimSuffix(parts[4], ".bin")
		h, ok := n.ch.byHash[hx]
		if !ok || h > n.tip {
			n.badURL = url
			return mk(404, []byte(hx+" not found\r\n")), nil
		}
		var out []byte
		for i := h; i <= n.tip && i < h+count; i++ {
			out = append(out, n.ch.blocks[i].header[:]...)
		}
		return mk(200, out), nil
	}
	if strings.HasPrefix(path, "/rest/block/") {
		f := parts[len(parts)-1]
		hx, ext, _ := strings.Cut(f, ".")
		h, ok := n.ch.byHash[hx]
		n.gets[hx]++
		if !ok || h > n.tip {
			n.badURL = url
			return mk(404, []byte(hx+" not found\r\n")), nil
		}
		if ext == "json" {
			return mk(200, n.ch.blocks[h].json()), nil
		}
		return mk(200, n.ch.blocks[h].raw()), nil
	}
	n.badURL = url
	return mk(404, []byte(fmt.Sprintf("no such path %s", path))), nil
}

func indexOf(s, sub string) int { return strings.Index(s, sub) }
