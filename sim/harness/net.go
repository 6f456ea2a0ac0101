//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

// Resp is a scripted answer of the simulated network.
type Resp struct {
	Match   string   `json:"match,omitempty"` // exact URL; "" answers everything
	Page    int      `json:"page,omitempty"`  // key list page this answer replaces
	Status  int      `json:"status,omitempty"`
	Hdr     []string `json:"hdr,omitempty"`
	Loc     string   `json:"loc,omitempty"` // redirect target
	Body    *Doc     `json:"body,omitempty"`
	Share   bool     `json:"share,omitempty"` // body is the scenario's document
	Text    string   `json:"text,omitempty"`  // body as text
	Frame   string   `json:"frame,omitempty"` // cl, chunked, close
	Plan    Plan     `json:"plan"`
	Fault   *Fault   `json:"fault,omitempty"` // offset counts body bytes
	Trunc   *int     `json:"trunc,omitempty"` // the connection closes cleanly after this many body bytes
	ConnErr string   `json:"connerr,omitempty"`
	Garbage bool     `json:"garbage,omitempty"` // not an HTTP response at all
	Stall   *int     `json:"stall,omitempty"`   // the server stops for ever after this many body bytes (-1: before the header)
	Latency int      `json:"latency,omitempty"` // ms
}

// GHKey is a key of the simulated GitHub account.
type GHKey struct {
	ID    string `json:"id"`
	Raw   *Doc   `json:"raw,omitempty"` // nil: raw_key null
	Null  bool   `json:"null,omitempty"`
	Sub   string `json:"sub,omitempty"` // ID of a subkey (must not match)
	Omit  bool   `json:"omit,omitempty"`
	Empty bool   `json:"empty,omitempty"` // raw_key is ""
	Same  bool   `json:"same,omitempty"`  // raw_key is the scenario's document
}

// Net is the simulated network.
type Net struct {
	Resps []*Resp  `json:"resps,omitempty"`
	GH    []*GHKey `json:"gh,omitempty"`
	IsGH  bool     `json:"isgh,omitempty"`
	Wild  int      `json:"wild,omitempty"` // JSON decoration of key lists
}

// Cancel interrupts the operation at the At-th network event.
type Cancel struct {
	At  int    `json:"at"`
	Via string `json:"via"` // ctx or sig
}

// Req is a request the network saw.
type Req struct {
	Method, URL, Host, Accept, Auth string
	Body                            int
}

// simNet is a Net in use.
type simNet struct {
	spec     *Net
	h        *handles
	cancel   *Cancel
	cancelFn context.CancelFunc
	ev       int
	fired    bool
	firedAt  int
	need     bool // at the time of the interrupt more was needed (see scen)
	reqs     []Req
	after    int // requests sent after the interrupt
	stuck    bool
	quiet    bool
	deliv    map[int]int // body bytes delivered per request
	atFire   struct{ req, bytes int }
	fault    bool // some injected response fault took effect
	evAfter  int
	over     bool // far too many requests
	tries    int  // requests attempted after the interrupt (one may find out that way)
}

const cancelGrace = 8 * time.Second

var errStuck = errors.New("simulated: the operation ignored the interrupt")

// event counts a network event and fires the interrupt when it is due.
func (n *simNet) event(ctx context.Context, req int) error {
	n.ev++
	if n.cancel != nil && !n.fired && n.ev > n.cancel.At {
		n.fire(ctx, req)
	}
	if n.fired {
		n.evAfter++
	}
	return ctx.Err()
}

func (n *simNet) fire(ctx context.Context, req int) {
	n.fired = true
	n.firedAt = n.ev
	n.atFire.req, n.atFire.bytes = req, n.deliv[req]
	if !n.quiet {
		fired("interrupt " + n.cancel.Via)
	}
	if n.cancel.Via == "sig" {
		deadline := time.Now().Add(cancelGrace)
		for ctx.Err() == nil && time.Now().Before(deadline) {
			interrupt()
			for i := 0; i < 50 && ctx.Err() == nil; i++ {
				time.Sleep(200 * time.Microsecond)
			}
		}
	} else if n.cancelFn != nil {
		n.cancelFn()
	}
	if ctx.Err() == nil {
		select {
		case <-ctx.Done():
		case <-time.After(500 * time.Millisecond):
		}
	}
}

func (n *simNet) wait(ctx context.Context) error {
	if n.cancel == nil {
		n.stuck = true
		return errStuck
	}
	if ctx.Err() == nil {
		select {
		case <-ctx.Done():
		case <-time.After(time.Second):
			n.stuck = true
			return errStuck
		}
	}
	return ctx.Err()
}

// RoundTrip implements http.RoundTripper.
func (n *simNet) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	id := len(n.reqs)
	if n.fired {
		n.tries++
	}
	if err := n.event(ctx, id); err != nil {
		return nil, err
	}
	sc := req.URL.Scheme
	if sc != "http" && sc != "https" {
		return nil, fmt.Errorf("unsupported protocol scheme %q", sc)
	}
	if req.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	if !n.quiet {
		stats.Reqs++
	}
	if n.fired {
		n.after++
	}
	q := Req{Method: req.Method, URL: req.URL.String(), Host: req.Host, Accept: req.Header.Get("Accept"), Auth: req.Header.Get("Authorization")}
	if q.Host == "" {
		q.Host = req.URL.Host
	}
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		req.Body.Close()
		q.Body = len(b)
	}
	n.reqs = append(n.reqs, q)
	if len(n.reqs) > 400 {
		n.over = true
		return nil, errors.New("simulated: too many requests")
	}
	r := n.answer(req.URL)
	hook.Advance(time.Duration(r.Latency) * time.Millisecond)
	if r.ConnErr != "" {
		n.hit("connect " + r.ConnErr)
		return nil, mkErr(r.ConnErr)
	}
	if r.Stall != nil && *r.Stall < 0 {
		n.hit("stall before header")
		if n.cancel != nil && !n.fired {
			n.fire(ctx, id)
		}
		if err := n.wait(ctx); err != nil {
			return nil, err
		}
	}
	if r.Garbage {
		n.hit("garbage response")
		return nil, errors.New("net/http: HTTP/1.x transport connection broken: malformed HTTP response")
	}
	wire, hdrLen := r.wire()
	sr := newReader(wire, r.Plan, nil)
	sr.quiet = n.quiet
	if f := r.Fault; f != nil {
		ff := *f
		ff.At = hdrLen + r.wireOff(f.At)
		sr.fault = &ff
	} else if r.Trunc != nil {
		cut := hdrLen + r.wireOff(*r.Trunc)
		if cut < len(wire) {
			sr.data = wire[:cut]
			n.hit("connection closed early")
		}
	}
	if err := n.event(ctx, id); err != nil {
		return nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReaderSize(&connReader{n: n, ctx: ctx, r: sr, id: id, hdr: hdrLen, stall: r.stallAt(hdrLen)}, 16), req)
	if err != nil {
		return nil, err
	}
	n.h.open++
	n.h.opened++
	resp.Body = &simBody{n: n, ctx: ctx, id: id, rc: resp.Body}
	return resp, nil
}

func (n *simNet) hit(k string) {
	n.fault = true
	if !n.quiet {
		fired(k)
	}
}

// connReader is the connection a response is read from.
type connReader struct {
	n     *simNet
	ctx   context.Context
	r     *simReader
	id    int
	hdr   int
	stall int
}

func (c *connReader) Read(p []byte) (int, error) {
	if c.stall >= 0 && c.r.pos >= c.stall {
		c.n.hit("stall in body")
		if c.n.cancel != nil && !c.n.fired {
			c.n.fire(c.ctx, c.id)
		}
		if err := c.n.wait(c.ctx); err != nil {
			return 0, err
		}
	}
	if c.stall >= 0 && len(p) > c.stall-c.r.pos && c.stall > c.r.pos {
		p = p[:c.stall-c.r.pos]
	}
	n, err := c.r.Read(p)
	if c.r.fires > 0 {
		c.n.fault = true
	}
	return n, err
}

// simBody is a response body whose closing is observed.
type simBody struct {
	n      *simNet
	ctx    context.Context
	id     int
	rc     io.ReadCloser
	closed bool
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if err := b.n.event(b.ctx, b.id); err != nil {
		return 0, err
	}
	k, err := b.rc.Read(p)
	if k > 0 {
		if b.n.deliv == nil {
			b.n.deliv = map[int]int{}
		}
		b.n.deliv[b.id] += k
	}
	return k, err
}

func (b *simBody) Close() error {
	if b.closed {
		return nil
	}
	b.closed = true
	b.n.h.open--
	return nil
}

func (r *Resp) body() []byte {
	if r.Body != nil {
		return r.Body.Bytes()
	}
	return []byte(r.Text)
}

const chunkSize = 61

// wire returns the bytes of the response and the length of its header.
func (r *Resp) wire() ([]byte, int) {
	st := r.Status
	if st == 0 {
		st = 200
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", st, http.StatusText(st))
	for _, h := range r.Hdr {
		b.WriteString(h + "\r\n")
	}
	if r.Loc != "" {
		b.WriteString("Location: " + r.Loc + "\r\n")
	}
	body := r.body()
	if st == 204 || st == 304 {
		body = nil
	}
	switch r.Frame {
	case "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	case "close":
		b.WriteString("Connection: close\r\n\r\n")
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
	}
	h := b.Len()
	if r.Frame == "chunked" {
		for len(body) > 0 {
			k := chunkSize
			if k > len(body) {
				k = len(body)
			}
			fmt.Fprintf(&b, "%x\r\n", k)
			b.Write(body[:k])
			b.WriteString("\r\n")
			body = body[k:]
		}
		b.WriteString("0\r\n\r\n")
	} else {
		b.Write(body)
	}
	return b.Bytes(), h
}

// wireOff maps a body offset to an offset after the header.
func (r *Resp) wireOff(off int) int {
	if r.Frame != "chunked" {
		return off
	}
	full := off / chunkSize
	return full*(len(fmt.Sprintf("%x", chunkSize))+4+chunkSize) + map[bool]int{true: 0, false: 4 + off%chunkSize}[off%chunkSize == 0]
}

func (r *Resp) stallAt(hdr int) int {
	if r.Stall == nil || *r.Stall < 0 {
		return -1
	}
	return hdr + r.wireOff(*r.Stall)
}

var notFound = &Resp{Status: 404, Text: "simulated: no such page\n"}

// answer finds the response to a request.
func (n *simNet) answer(u *url.URL) *Resp {
	s := u.String()
	if n.spec == nil {
		return notFound
	}
	if n.spec.IsGH && u.Host == "api.github.com" && strings.HasSuffix(u.Path, "/gpg_keys") {
		page, per := pageOf(u)
		r := &Resp{Text: n.spec.page(page, per), Hdr: []string{"Content-Type: application/json; charset=utf-8"}}
		for _, o := range n.spec.Resps {
			if o.Page == page {
				r.Status, r.Plan, r.Fault, r.Trunc, r.ConnErr, r.Stall, r.Latency, r.Frame, r.Garbage, r.Loc = o.Status, o.Plan, o.Fault, o.Trunc, o.ConnErr, o.Stall, o.Latency, o.Frame, o.Garbage, o.Loc
				if o.Text != "" {
					r.Text = o.Text
				}
			}
		}
		return r
	}
	for _, r := range n.spec.Resps {
		if r.Page == 0 && (r.Match == "" || r.Match == s) {
			return r
		}
	}
	return notFound
}

func pageOf(u *url.URL) (int, int) {
	page, err := strconv.Atoi(u.Query().Get("page"))
	if err != nil || page < 1 {
		page = 1
	}
	per, err := strconv.Atoi(u.Query().Get("per_page"))
	if err != nil || per < 1 {
		per = 30
	}
	if per > 100 {
		per = 100
	}
	return page, per
}

// page renders one page of the key list.
func (n *Net) page(page, per int) string {
	lo := (page - 1) * per
	hi := lo + per
	if lo > len(n.GH) {
		lo = len(n.GH)
	}
	if hi > len(n.GH) {
		hi = len(n.GH)
	}
	l := make([]json.RawMessage, 0, hi-lo)
	for i, k := range n.GH[lo:hi] {
		if k.Null {
			l = append(l, json.RawMessage("null"))
			continue
		}
		m := map[string]interface{}{"id": lo + i + 1, "key_id": k.ID, "public_key": "xsBN" + k.ID, "emails": []interface{}{}, "subkeys": []interface{}{},
			"can_sign": true, "created_at": "2016-03-24T11:31:04.000-06:00", "expires_at": nil, "primary_key_id": nil}
		if k.Empty {
			m["raw_key"] = ""
		} else if k.Raw != nil {
			m["raw_key"] = string(k.Raw.Bytes())
		} else if !k.Omit {
			m["raw_key"] = nil
		}
		if k.Sub != "" {
			m["subkeys"] = []interface{}{map[string]interface{}{"id": 9, "primary_key_id": lo + i + 1, "key_id": k.Sub, "raw_key": nil, "subkeys": []interface{}{}, "emails": []interface{}{}}}
		}
		if n.Wild&1 != 0 {
			m["revoked"] = false
			m["name"] = "k \u00e9 \\ \""
		}
		b, _ := json.Marshal(m)
		l = append(l, b)
	}
	var b []byte
	if n.Wild&2 != 0 {
		b, _ = json.MarshalIndent(l, "", "  ")
	} else {
		b, _ = json.Marshal(l)
	}
	if n.Wild&4 != 0 {
		b = append(b, '\n')
	}
	return string(b)
}
