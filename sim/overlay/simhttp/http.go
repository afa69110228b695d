// Package http is net/http with every transport replaced by the simulated network.
package http

import (
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	context "github.com/KitchenMishap/pudding-shed/verifsim/simcontext"
)

type (
	Client         = http.Client
	Response       = http.Response
	Request        = http.Request
	Header         = http.Header
	RoundTripper   = http.RoundTripper
	Cookie         = http.Cookie
	Handler        = http.Handler
	HandlerFunc    = http.HandlerFunc
	ResponseWriter = http.ResponseWriter
)

// RT is the simulated network; set by the harness.
var RT func(*http.Request) (*http.Response, error)

type rt struct{}

func (rt) RoundTrip(r *http.Request) (*http.Response, error) { return trip(r) }

// trip fails when the context of the request is over before the answer is there.
func trip(r *http.Request) (*http.Response, error) {
	c := context.Of(r.Context())
	if c == nil {
		return RT(r)
	}
	if err := c.Err(); err != nil {
		return nil, err
	}
	resp, err := RT(r)
	if e := c.Err(); e != nil {
		if err == nil && resp.Body != nil {
			resp.Body.Close()
		}
		return nil, e
	}
	return resp, err
}

func init() { http.DefaultTransport = rt{}; http.DefaultClient = &http.Client{Transport: rt{}} }

var DefaultTransport RoundTripper = rt{}
var DefaultClient = &http.Client{Transport: rt{}}
var NoBody = http.NoBody
var ErrUseLastResponse = http.ErrUseLastResponse

// Transport mirrors the configuration surface of http.Transport.
type Transport struct {
	Proxy                  func(*Request) (*url.URL, error)
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

func (*Transport) RoundTrip(r *Request) (*Response, error) { return trip(r) }
func (*Transport) CloseIdleConnections()                   {}
func (t *Transport) Clone() *Transport                     { c := *t; return &c }

func Get(u string) (*Response, error)                       { return DefaultClient.Get(u) }
func Head(u string) (*Response, error)                      { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*Response, error)     { return DefaultClient.Post(u, ct, b) }
func NewRequest(m, u string, b io.Reader) (*Request, error) { return http.NewRequest(m, u, b) }
func NewRequestWithContext(c context.Context, m, u string, b io.Reader) (*Request, error) {
	return http.NewRequestWithContext(context.Plain(c), m, u, b)
}
func StatusText(c int) string { return http.StatusText(c) }

const (
	MethodGet  = http.MethodGet
	MethodPost = http.MethodPost
	MethodHead = http.MethodHead

	StatusOK                  = http.StatusOK
	StatusNoContent           = http.StatusNoContent
	StatusPartialContent      = http.StatusPartialContent
	StatusMovedPermanently    = http.StatusMovedPermanently
	StatusBadRequest          = http.StatusBadRequest
	StatusUnauthorized        = http.StatusUnauthorized
	StatusForbidden           = http.StatusForbidden
	StatusNotFound            = http.StatusNotFound
	StatusRequestTimeout      = http.StatusRequestTimeout
	StatusTooManyRequests     = http.StatusTooManyRequests
	StatusInternalServerError = http.StatusInternalServerError
	StatusBadGateway          = http.StatusBadGateway
	StatusServiceUnavailable  = http.StatusServiceUnavailable
	StatusGatewayTimeout      = http.StatusGatewayTimeout
)
