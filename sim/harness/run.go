//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	"github.com/spiegel-im-spiegel/errs"
	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	pctx "github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	clip "github.com/spiegel-im-spiegel/gpgpdump/zzsim/clip"
	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

// Op is one use of the program or of its library, with the world it runs in.
type Op struct {
	Src  string   `json:"src,omitempty"` // where the document comes from (see mkOp)
	Kind string   `json:"kind"`          // cli, parse, bytes, steps, hkp, ghkey, ghget
	Args []string `json:"args,omitempty"`
	Opt  string   `json:"opt,omitempty"` // option letters of library calls (a c i l m p u, D debug)

	In      *Stream `json:"in,omitempty"`
	File    *Stream `json:"file,omitempty"`    // the file named "sim.pgp"
	OpenErr string  `json:"openerr,omitempty"` // opening it fails
	Clip    *Stream `json:"clip,omitempty"`
	ClipErr bool    `json:"cliperr,omitempty"`
	Net     *Net    `json:"net,omitempty"`
	Out     *WFault `json:"out,omitempty"`
	Err     *WFault `json:"err,omitempty"`
	Cancel  *Cancel `json:"cancel,omitempty"`

	User, Key string `json:",omitempty"` // of library fetches
	Host      string `json:"host,omitempty"`
	Port      int    `json:"port,omitempty"`
	Sec       bool   `json:"sec,omitempty"`

	TZ      string `json:"tz,omitempty"`
	TZ2     string `json:"tz2,omitempty"`
	TZAt    uint64 `json:"tzat,omitempty"` // step at which the zone becomes TZ2
	Clock   int64  `json:"clock,omitempty"`
	JumpAt  uint64 `json:"jumpat,omitempty"`
	Jump    int64  `json:"jump,omitempty"` // seconds
	MapSeed uint64 `json:"mapseed,omitempty"`
	Limit   uint64 `json:"limit,omitempty"` // step budget

	Text bool `json:"text,omitempty"` // library: render as text too

	cxt *pctx.Context // library: use this context
}

// Outcome is what an observer sees.
type Outcome struct {
	Exit    int
	Out     []byte
	Errb    []byte
	Panic   string
	Limit   bool
	Err     string // library error, "" if none
	Class   string // nokey, invalid, other
	Info    string
	Items   []string
	Data    []byte
	HasData bool
	Steps   uint64
	Alloc   uint64 // bytes taken from the heap (only with a step budget); varies a little
	Reqs    []Req
	Open    int
	Opened  int
	Stuck   bool
	Fired   bool // the interrupt happened
	FireReq int
	FireOff int
	After   int
	EvAfter int
	Events  int
	RFault  bool // an injected read or network fault took effect
	WFault  bool
	EFault  bool
	InRead  int // bytes taken from In/File
	TZHit   bool
	Over    bool
	Tries   int
}

// OK tells whether the operation claims success.
func (o *Outcome) OK() bool {
	return o.Exit == 0 && o.Err == "" && o.Panic == "" && !o.Limit
}

const simFileName = "sim.pgp"

var defaultNet = &simNet{h: &handles{}}

// switchNet is installed as http.DefaultTransport.
type switchNet struct{}

func (switchNet) RoundTrip(r *http.Request) (*http.Response, error) { return defaultNet.RoundTrip(r) }

func init() {
	http.DefaultTransport = switchNet{}
	// an interrupt must never end the simulator itself
	signal.Notify(ownSignals, os.Interrupt)
	baseGoroutines = runtime.NumGoroutine()
}

var baseGoroutines int

var ownSignals = make(chan os.Signal, 16)

// interrupt sends SIGINT to this process and returns when the runtime has
// handed it to every receiver, so that it cannot hit a later operation: a
// channel that is registered afterwards does not get it.
func interrupt() {
	for len(ownSignals) > 0 {
		<-ownSignals
	}
	_ = syscall.Kill(syscall.Getpid(), syscall.SIGINT)
	select {
	case <-ownSignals:
	case <-time.After(20 * time.Second):
	}
}

// flushSignals ends the goroutines that the signal library leaves behind for
// every network command, so that they do not pile up.
func flushSignals() {
	if runtime.NumGoroutine() < baseGoroutines+600 {
		return
	}
	for i := 0; i < 200 && runtime.NumGoroutine() > baseGoroutines+50; i++ {
		if i%20 == 0 {
			interrupt()
		}
		time.Sleep(200 * time.Microsecond)
	}
	baseGoroutines = runtime.NumGoroutine()
}

func fileSimulated() bool { return !strings.Contains(hook.Off, "os") }

var scratch string

func loadZone(name string) *time.Location {
	if name == "" || name == "UTC" {
		return time.UTC
	}
	if strings.HasPrefix(name, "fixed:") {
		var off int
		fmt.Sscanf(name, "fixed:%d", &off)
		return time.FixedZone("SIM", off)
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

var (
	keepZone bool
	curTZ    = "?"
)

// run executes one operation.
func (op *Op) run() *Outcome {
	o := &Outcome{}
	stats.Ops++
	if stats.Ops%64 == 0 {
		flushSignals()
	}
	// within a history the zone is set when it changes, not per operation:
	// an operation that alters it must not be repaired by the harness
	if !keepZone || curTZ != op.TZ {
		time.Local = loadZone(op.TZ)
		curTZ = op.TZ
	}
	hook.MapSeed = op.MapSeed
	clock := op.Clock
	if clock == 0 {
		clock = 1600000000
	}
	hook.SetClock(clock * 1e9)
	var at []hook.At
	if op.TZ2 != "" {
		z2 := loadZone(op.TZ2)
		at = append(at, hook.At{Step: op.TZAt, Fn: func() { time.Local = z2; o.TZHit = true; fired("zone change") }})
	}
	if op.Jump != 0 {
		at = append(at, hook.At{Step: op.JumpAt, Fn: func() { hook.Jump(time.Duration(op.Jump) * time.Second); fired("clock jump") }})
	}
	limit := op.Limit
	if limit == 0 {
		limit = 400_000_000
	}
	h := &handles{}
	net := &simNet{spec: op.Net, h: h, cancel: op.Cancel, deliv: map[int]int{}}
	var in *simReader
	hook.OpenFn, clip.ReadFn = nil, nil
	start := hook.Elapsed()
	hook.Reset(limit, at)
	var heap uint64
	if op.Limit > 0 {
		heap = heapBytes()
	}
	if op.Kind == "cli" {
		op.runCLI(o, h, net, &in)
	} else {
		op.runLib(o, h, net, &in)
	}
	o.Steps = hook.Steps()
	if op.Limit > 0 {
		o.Alloc = heapBytes() - heap
	}
	o.Limit = hook.LimitHit()
	stats.Steps += o.Steps
	stats.SimNS += hook.Elapsed() - start
	hook.Reset(1<<62, nil)
	if !keepZone {
		time.Local = time.UTC
	}
	hook.OpenFn, clip.ReadFn = nil, nil
	op.collect(o, h, net, in)
	return o
}

func heapBytes() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	if m[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return m[0].Value.Uint64()
}

func (op *Op) collect(o *Outcome, h *handles, net *simNet, in *simReader) {
	o.Reqs, o.Open, o.Opened = net.reqs, h.open, h.opened
	o.Stuck, o.Fired, o.After, o.EvAfter = net.stuck, net.fired, net.after, net.evAfter
	o.FireReq, o.FireOff, o.Events = net.atFire.req, net.atFire.bytes, net.ev
	o.RFault = o.RFault || net.fault
	o.Over, o.Tries = net.over, net.tries
	if in != nil {
		o.InRead = in.pos
		if in.fires > 0 {
			o.RFault = true
		}
	}
}

func (op *Op) runCLI(o *Outcome, h *handles, net *simNet, in **simReader) {
	args := append([]string(nil), op.Args...)
	out, errw := &simWriter{fault: op.Out}, &simWriter{fault: op.Err}
	var stdin io.Reader = bytes.NewReader(nil)
	if op.In != nil {
		*in = op.In.reader()
		stdin = (*in).as()
	}
	if op.File != nil && !fileSimulated() {
		f, err := os.CreateTemp(scratch, "f")
		if err == nil {
			_, _ = f.Write(op.File.Doc.Bytes())
			f.Close()
			defer os.Remove(f.Name())
			for i := range args {
				if args[i] == simFileName {
					args[i] = f.Name()
				}
			}
		}
	}
	hook.OpenFn = func(name string) (hook.FileImpl, int64, error) {
		if op.OpenErr != "" {
			o.RFault = true
			fired("open " + op.OpenErr)
			return nil, 0, mkErr(op.OpenErr)
		}
		if op.File == nil || name != simFileName {
			return nil, 0, mkErr("notexist")
		}
		r := op.File.reader()
		*in = r
		h.open++
		h.opened++
		f := &simFile{simReader: r, h: h}
		r.closed = &f.closed
		return f, int64(len(r.data)), nil
	}
	clip.ReadFn = func() (string, error) {
		if op.ClipErr || op.Clip == nil {
			o.RFault = true
			fired("clipboard failure")
			return "", errors.New("simulated: clipboard is not available")
		}
		return string(op.Clip.Doc.Bytes()), nil
	}
	defaultNet = net
	defer func() { defaultNet = &simNet{h: &handles{}} }()
	ui := rwi.New(rwi.WithReader(stdin), rwi.WithWriter(out), rwi.WithErrorWriter(errw))
	func() {
		defer func() {
			if x := recover(); x != nil {
				o.Panic = fmt.Sprint(x)
				o.Exit = 2
			}
		}()
		o.Exit = int(facade.Execute(ui, args))
	}()
	o.Out, o.Errb = out.buf, errw.buf
	o.WFault, o.EFault = out.fires > 0, errw.fires > 0
	if s := string(o.Errb); strings.HasPrefix(s, "Panic:") || strings.Contains(s, "\nPanic:") {
		if i := strings.Index(s, "Panic:"); i >= 0 {
			s = s[i:]
		}
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			s = s[:i]
		}
		o.Panic = s
	}
}

func options(opt string) *pctx.Context {
	var l []pctx.OptFunc
	for _, c := range opt {
		code := map[rune]pctx.OptCode{'a': pctx.ARMOR, 'c': pctx.CERT, 'i': pctx.INTEGER, 'l': pctx.LITERAL, 'm': pctx.MARKER, 'p': pctx.PRIVATE, 'u': pctx.UTC, 'D': pctx.DEBUG}
		l = append(l, pctx.Set(code[c], true))
	}
	return pctx.New(l...)
}

func (o *Outcome) fail(err error) {
	o.Err = "error: " + err.Error()
	switch {
	case errs.Is(err, ecode.ErrNoKey):
		o.Class = "nokey"
	case errs.Is(err, ecode.ErrInvalidRequest):
		o.Class = "invalid"
	default:
		o.Class = "other"
	}
}

func (o *Outcome) info(i *result.Info, text bool) {
	if i == nil {
		return
	}
	r, err := i.JSON(0)
	if err != nil {
		o.Info = "JSON error: " + err.Error()
		return
	}
	b, _ := io.ReadAll(r)
	o.Info = string(b)
	if text {
		b, _ := io.ReadAll(i.ToString("\t"))
		o.Data, o.HasData = b, true
	}
	for _, it := range i.Packets {
		b, _ := json.Marshal(it)
		o.Items = append(o.Items, string(b))
	}
}

func (op *Op) runLib(o *Outcome, h *handles, net *simNet, in **simReader) {
	defer func() {
		if x := recover(); x != nil {
			o.Panic = fmt.Sprint(x)
		}
	}()
	var rd io.Reader
	if op.In != nil {
		*in = op.In.reader()
		(*in).quiet = net.quiet
		rd = (*in).as()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	net.cancelFn = cancel
	cli := fetch.New(fetch.WithHTTPClient(&http.Client{Transport: net}))
	if op.Cancel != nil && op.Cancel.At < 0 {
		net.fired = true
		if !net.quiet {
			fired("cancelled before start")
		}
		cancel()
	}
	cxt := op.cxt
	if cxt == nil {
		cxt = options(op.Opt)
	}
	switch op.Kind {
	case "parse", "bytes":
		var p *parse.Parser
		var err error
		if op.Kind == "bytes" {
			p, err = parse.NewBytes(cxt, op.In.Doc.Bytes())
		} else {
			p, err = parse.New(cxt, rd)
		}
		if err != nil {
			o.fail(err)
			return
		}
		i, err := p.Parse()
		if err != nil {
			o.fail(err)
		}
		o.info(i, op.Text)
	case "steps":
		p, err := tags.NewPackets(cxt, rd)
		if err != nil {
			o.fail(err)
			return
		}
		inf := result.New()
		for {
			if err := p.Next(); err != nil {
				if !errs.Is(err, io.EOF) {
					o.fail(err)
				}
				break
			}
			it, err := p.Parse()
			if err != nil {
				o.fail(err)
				break
			}
			inf.Add(it)
		}
		o.info(inf, op.Text)
	case "ghkey", "ghget":
		var b []byte
		var err error
		if op.Kind == "ghget" {
			b, err = github.Get(ctx, cli, op.User)
		} else {
			b, err = github.GetKey(ctx, cli, op.User, op.Key)
		}
		o.Data, o.HasData = b, true
		if err != nil {
			o.fail(err)
		}
	case "hkp":
		prt := hkp.HKP
		if op.Sec {
			prt = hkp.HKPS
		}
		r, err := hkp.New(op.Host, hkp.WithProtocol(prt), hkp.WithPort(op.Port)).Fetch(ctx, cli, op.User)
		if err != nil {
			o.fail(err)
			return
		}
		b, err := io.ReadAll(r)
		r.Close()
		o.Data, o.HasData = b, true
		if err != nil {
			o.fail(err)
		}
	default:
		panic("unknown kind " + op.Kind)
	}
}
