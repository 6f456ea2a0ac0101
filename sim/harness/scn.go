//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

// Scn is one simulated run: everything that happens in it follows from this
// value and the code. It is what a replay file holds.
type Scn struct {
	Prop  string          `json:"property"`
	Kind  string          `json:"kind"`
	Seed  uint64          `json:"seed"`
	Run   int             `json:"run"`
	Doc   *Doc            `json:"doc,omitempty"`  // the document the streams without one of their own carry
	Doc2  *Doc            `json:"doc2,omitempty"` // a second form of it
	Ops   []*Op           `json:"ops,omitempty"`
	Sched []hook.Preempt  `json:"sched,omitempty"`
	X     map[string]int  `json:"x,omitempty"`
	Str   []string        `json:"str,omitempty"`
	Mut   []Mut           `json:"mut,omitempty"`
	Viol  string          `json:"violation,omitempty"`
	Trace json.RawMessage `json:"trace,omitempty"`
}

// Rec is what a check tells the driver about the run.
type Rec struct {
	sig    []string
	active bool // the fault or schedule under test took effect
	note   string
	known  string // a listed finding that was reproduced
	log    []string
}

func (r *Rec) add(p ...interface{}) { r.sig = append(r.sig, fmt.Sprint(p...)) }

// logOutcome adds an outcome to the event log (used to prove determinism).
func (r *Rec) logOutcome(o *Outcome) {
	r.log = append(r.log, fmt.Sprintf("%d %x %x %q %q %x %x %d %v %d/%d %d", o.Exit, hash64(o.Out), hash64(o.Errb), o.Panic, o.Err, hash64([]byte(o.Info)), hash64(o.Data), o.Steps, o.Reqs, o.Open, o.Opened, o.Events))
}

var stepsLogged = true

func (r *Rec) run(s *Scn, op *Op) *Outcome {
	o := s.fill(op).run()
	r.logOutcome(o)
	return o
}

// fill puts the scenario's document where an operation refers to it.
func (s *Scn) fill(op *Op) *Op {
	c := *op
	st := func(p **Stream) {
		if *p != nil && (*p).Doc == nil {
			x := **p
			x.Doc = s.Doc
			*p = &x
		}
	}
	st(&c.In)
	st(&c.File)
	st(&c.Clip)
	if c.Net != nil {
		n := *c.Net
		n.Resps = append([]*Resp(nil), n.Resps...)
		for i, r := range n.Resps {
			if r.Share {
				x := *r
				x.Body = s.Doc
				n.Resps[i] = &x
			}
		}
		n.GH = append([]*GHKey(nil), n.GH...)
		for i, k := range n.GH {
			if k.Same {
				x := *k
				x.Raw = s.Doc
				n.GH[i] = &x
			}
		}
		c.Net = &n
	}
	return &c
}

// Prop is the machinery of one property.
type Prop struct {
	gen      func(r *Rng, thorough bool) *Scn
	check    func(s *Scn, rec *Rec) string
	quick    int // runs
	thorough int
	rule     string
	serial   bool // one worker only
	race     bool // part of the runs use the race-detector build
	minOps   int
	heavy    func(thorough bool) []*Scn // fixed expensive scenarios, run by worker 0
	chunk    int                        // runs per process (0: as many as there are)
}

var props = map[string]*Prop{}

func propIDs() []string {
	var l []string
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- building operations ----

const (
	fetchURL = "https://sim.example/keys/a.asc"
	hkpURL   = "http://ks.sim.example:11371/pks/lookup?op=get&search=alice%40example.com"
	ghURL    = "https://github.com/alice.gpg"
	ghAPI    = "https://api.github.com/users/alice/gpg_keys"
	ghKeyID  = "3AA5C34371567BD2"
)

var cliSources = []string{"stdin", "file", "clip", "fetch", "hkp", "github", "ghkey"}
var binSources = []string{"stdin", "file", "fetch"}

func optArgs(opt string) []string {
	var l []string
	for _, c := range opt {
		if c == 'D' {
			l = append(l, "--debug")
			continue
		}
		l = append(l, "-"+string(c))
	}
	return l
}

// mkOp builds the operation that dumps st from the given source.
func mkOp(src, opt string, fa []string, st Stream, frame string) *Op {
	op := mkOp1(src, opt, fa, st, frame)
	op.Src = src
	return op
}

func mkOp1(src, opt string, fa []string, st Stream, frame string) *Op {
	a := append(optArgs(opt), fa...)
	resp := func(u string) *Net {
		return &Net{Resps: []*Resp{{Match: u, Share: st.Doc == nil, Body: st.Doc, Plan: st.Plan, Fault: st.Fault, Frame: frame}}}
	}
	switch src {
	case "stdin":
		return &Op{Kind: "cli", Args: a, In: &st}
	case "file":
		return &Op{Kind: "cli", Args: append(a, "-f", simFileName), File: &st}
	case "clip":
		return &Op{Kind: "cli", Args: append(a, "--clipboard"), Clip: &st}
	case "fetch":
		return &Op{Kind: "cli", Args: append([]string{"fetch"}, append(a, fetchURL)...), Net: resp(fetchURL)}
	case "hkp":
		return &Op{Kind: "cli", Args: append([]string{"hkp", "--keyserver", "ks.sim.example"}, append(a, "alice@example.com")...), Net: resp(hkpURL)}
	case "github":
		return &Op{Kind: "cli", Args: append([]string{"github"}, append(a, "alice")...), Net: resp(ghURL)}
	case "ghkey":
		n := &Net{IsGH: true, GH: []*GHKey{{ID: "0123456789ABCDEF", Raw: nil}, {ID: ghKeyID, Same: st.Doc == nil, Raw: st.Doc}}}
		n.Resps = []*Resp{{Page: 1, Plan: st.Plan, Fault: st.Fault, Frame: frame}}
		return &Op{Kind: "cli", Args: append([]string{"github", "--keyid", ghKeyID}, append(a, "alice")...), Net: n}
	case "lib":
		return &Op{Kind: "parse", Opt: opt, In: &st}
	case "bytes":
		return &Op{Kind: "bytes", Opt: opt, In: &st}
	case "steps":
		return &Op{Kind: "steps", Opt: opt, In: &st}
	}
	panic("unknown source " + src)
}

var respHdrs = []string{"Content-Type: text/plain", "Content-Type: text/plain; charset=utf-8", "Content-Type: application/pgp-keys", "Content-Type: application/pgp-keys; charset=UTF-8", "Content-Type: application/octet-stream", "Content-Type: application/pgp-encrypted", "Content-Type: text/html", "Content-Type: text/html; charset=ISO-8859-1", "Content-Type: application/json",
	"Content-Type: x/y; bad", "Content-Disposition: attachment; filename=x.asc", "Server: sim/1.0", "Date: Mon, 02 Jan 2006 15:04:05 GMT", "Cache-Control: no-cache", "X-HKP-Results-Count: 1", "Access-Control-Allow-Origin: *", "Set-Cookie: a=b", "Connection: close", "ETag: \"x\"", "Last-Modified: Mon, 02 Jan 2006 15:04:05 GMT", "Retry-After: 1", "Warning: 199 - x", "Content-Language: de", "Link: <https://api.github.com/x?page=7>; rel=\"first\""}

// dress varies what must not matter about a network operation: response
// headers, latency, and (for key servers) the protocol.
func dress(r *Rng, op *Op) *Op {
	if op.Net == nil {
		if op.Kind == "cli" && r.P(1, 3) {
			op.spell(r)
		}
		return op
	}
	for _, x := range op.Net.Resps {
		if x.Hdr == nil && r.P(1, 2) {
			for i := r.R(1, 3); i > 0; i-- {
				h := Pick(r, respHdrs...)
				dup := false
				for _, o := range x.Hdr {
					dup = dup || strings.SplitN(o, ":", 2)[0] == strings.SplitN(h, ":", 2)[0]
				}
				if !dup {
					x.Hdr = append(x.Hdr, h)
				}
			}
		}
	}
	if r.P(1, 2) {
		op.elsewhere(r)
	}
	if op.Kind == "cli" && r.P(1, 3) {
		op.spell(r)
	}
	return op
}

// elsewhere asks another server, or for something else.
func (op *Op) elsewhere(r *Rng) {
	old, now := "", ""
	last := len(op.Args) - 1
	switch {
	case op.Kind == "cli" && len(op.Args) > 1 && op.Args[0] == "fetch" && op.Args[last] == fetchURL:
		old = fetchURL
		now = Pick(r, "http://sim.example/keys/a.asc", "https://sim.example:8443/a/b?x=1&y=2", "http://10.0.0.7:8080/key", "https://keys.sim.example/~u/pub.gpg", "https://sim.example/", "http://[::1]:8000/k.txt", "https://sim.example/raw/k.html", "HTTPS://sim.example/k.bin", "https://u:pw@sim.example/k")
		op.Args[last] = now
		now = strings.Replace(now, "HTTPS", "https", 1)
	case op.Kind == "cli" && len(op.Args) > 3 && op.Args[0] == "hkp" && op.Args[2] == "ks.sim.example" && op.Args[last] == "alice@example.com", op.Kind == "hkp" && op.Port == 11371 && op.Host == "ks.sim.example":
		old = hkpURL
		host := Pick(r, "ks.sim.example", "keys.openpgp.org", "pool.sks-keyservers.net", "10.1.2.3")
		user := Pick(r, "alice@example.com", "0x3AA5C34371567BD2", "3AA5C34371567BD2", "Alice Doe <alice@example.com>", "a")
		port := Pick(r, 11371, 11371, 80, 443, 8080, 1)
		sec := r.P(1, 2)
		scheme := "http"
		if sec {
			scheme = "https"
		}
		now = fmt.Sprintf("%s://%s:%d/pks/lookup?%s", scheme, host, port, url.Values{"op": {"get"}, "search": {user}}.Encode())
		if op.Kind == "hkp" {
			op.Host, op.Port, op.User, op.Sec = host, port, user, sec
			break
		}
		op.Args[2], op.Args[last] = host, user
		if port != 11371 {
			op.Args = append([]string{"hkp", "--port", strconv.Itoa(port)}, op.Args[1:]...)
		}
		if sec {
			op.Args = append([]string{"hkp", "--secure"}, op.Args[1:]...)
		}
	case op.Kind == "cli" && len(op.Args) > 1 && op.Args[0] == "github" && op.Args[last] == "alice", op.Kind == "ghget" && op.User == "alice", op.Kind == "ghkey" && op.User == "alice":
		old = ghURL
		user := Pick(r, "alice", "bob7", "A-1", "x", "spiegel-im-spiegel")
		now = "https://github.com/" + user + ".gpg"
		if op.Kind == "cli" {
			op.Args[last] = user
		} else {
			op.User = user
		}
	default:
		return
	}
	for _, x := range op.Net.Resps {
		if x.Match == old {
			x.Match = now
		}
	}
}

var longFlags = map[string]string{"-a": "--armor", "-c": "--cert", "-i": "--int", "-l": "--literal", "-m": "--marker", "-p": "--private", "-u": "--utc", "-j": "--json"}

// spell writes the same command line in another way.
func (op *Op) spell(r *Rng) {
	var l, front []string
	for i, a := range op.Args {
		if i == 0 && len(op.Args) > 1 && op.Net != nil {
			switch a {
			case "fetch":
				a = Pick(r, "fetch", "fch", "f")
			case "hkp":
				a = Pick(r, "hkp", "h")
			case "github":
				a = Pick(r, "github", "gh", "g")
			}
		}
		if f := longFlags[a]; f != "" {
			switch r.N(4) {
			case 0:
				a = f
			case 1:
				a = f + "=true"
			}
			if r.P(1, 3) {
				front = append(front, a)
				continue
			}
		}
		l = append(l, a)
	}
	op.Args = append(front, l...)
}

func isCLI(src string) bool { return src != "lib" && src != "bytes" && src != "steps" }

// opts draws dump options; utc adds -u so that output does not depend on zone.
func drawOpts(r *Rng) string {
	o := "u"
	if r.P(1, 2) {
		for _, c := range "cilmp" {
			if r.P(1, 3) {
				o += string(c)
			}
		}
	}
	return o
}

func drawFmt(r *Rng) []string {
	switch r.N(5) {
	case 0, 1:
		return []string{"-j"}
	case 2:
		return []string{"-j", "--indent", fmt.Sprint(r.R(1, 4))}
	case 3:
		return []string{"--indent", fmt.Sprint(r.R(1, 4))}
	}
	return nil
}

// drawPlan draws a delivery schedule for n bytes.
func drawPlan(r *Rng, n int) Plan {
	p := Plan{EOFWith: r.P(1, 3)}
	if r.P(1, 4) {
		p.As = Pick(r, readerKinds...)
	}
	unit := 1
	if n > 1<<16 {
		unit = n / 5000
	}
	switch r.N(7) {
	case 0:
		return p
	case 1:
		p.Chunks = []int{unit}
	case 2:
		p.Chunks = []int{unit * r.R(1, 70)}
	case 3:
		for i := r.R(2, 8); i > 0; i-- {
			p.Chunks = append(p.Chunks, unit*r.R(1, 100))
		}
	case 4:
		for i := r.R(2, 8); i > 0; i-- {
			p.Chunks = append(p.Chunks, Pick(r, 0, unit, unit*3, unit*64, -1))
		}
	case 5:
		p.Chunks = []int{r.R(1, n+1), -1}
	case 6:
		p.Chunks = []int{0, unit * r.R(1, 4096)}
	}
	for i := range p.Chunks { // an empty read is never the whole plan
		if p.Chunks[i] != 0 {
			if r.P(1, 4) {
				p.Delay = r.R(1, 2000)
			}
			return p
		}
	}
	p.Chunks = append(p.Chunks, unit)
	return p
}

// drawDoc draws a document: binary or armored as asked for.
func drawDoc(r *Rng, arm bool) *Doc {
	g := NewG(r)
	if r.P(1, 12) && len(samples) > 0 {
		s := Pick(r, samples...)
		if strings.Contains(s.data, "-----BEGIN PGP") {
			if d := dearmor(s.data); d != nil {
				doc := &Doc{Raw: d}
				if arm {
					doc.Armor = g.armor(doc)
				}
				if arm || doc.safe() {
					return doc
				}
			}
		}
	}
	var d *Doc
	switch {
	case r.P(1, 25):
		d = g.big(r.R(5000, 200000))
	case r.P(1, 700):
		d = g.big(r.R(200000, 5000000))
	case r.P(1, 30):
		g.max = Pick(r, 60, 60, 60, 130, 260)
		d = g.doc()
	default:
		d = g.doc()
	}
	if arm {
		d.Armor = g.armor(d)
	} else if !d.safe() {
		return drawDoc(r, arm)
	}
	return d
}

// failed describes why an outcome is not a proper failure, "" if it is one.
func failed(src string, o *Outcome, raw bool) string {
	if !isCLI(src) {
		if o.Err == "" && o.Panic == "" && !o.Limit {
			return "the call returned no error"
		}
		return ""
	}
	switch {
	case o.Exit == 0:
		return fmt.Sprintf("exit status 0 with %d bytes of output", len(o.Out))
	case !raw && len(o.Out) > 0:
		return fmt.Sprintf("%d bytes of output besides the error", len(o.Out))
	case len(o.Errb) == 0:
		return "no message on standard error"
	}
	return ""
}

func brief(o *Outcome) string {
	s := fmt.Sprintf("exit %d, %d bytes out", o.Exit, len(o.Out))
	if o.Panic != "" {
		s += ", panic " + o.Panic
	}
	if o.Err != "" {
		s += ", " + o.Err
	}
	if len(o.Errb) > 0 {
		e := string(o.Errb)
		if i := strings.IndexByte(e, '\n'); i >= 0 {
			e = e[:i]
		}
		s += ", stderr " + e
	}
	return s
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		lo, hi := i-20, i+40
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%q", x[lo:hi])
	}
	return fmt.Sprintf("%d and %d bytes, first difference at %d: %s / %s", len(a), len(b), i, cut(a), cut(b))
}

// kindsOf lists the packet types of a document.
func kindsOf(d *Doc) string {
	if d == nil || d.Raw != nil {
		return "raw"
	}
	var l []string
	for _, p := range d.Pk {
		l = append(l, fmt.Sprintf("%d%s", p.Tag, p.Hdr))
	}
	return strings.Join(l, ",")
}

// dearmor extracts the data of an armored sample.
func dearmor(text string) []byte {
	i := strings.Index(text, "-----BEGIN PGP")
	for i >= 0 && strings.HasPrefix(text[i:], "-----BEGIN PGP SIGNED") {
		j := strings.Index(text[i+5:], "-----BEGIN PGP")
		if j < 0 {
			return nil
		}
		i += 5 + j
	}
	if i < 0 {
		return nil
	}
	var b64 strings.Builder
	body := false
	for n, l := range strings.Split(text[i:], "\n") {
		l = strings.TrimRight(l, "\r \t")
		if n == 0 {
			continue
		}
		if strings.HasPrefix(l, "-----END PGP") {
			d, err := decode64(b64.String())
			if err != nil {
				return nil
			}
			return d
		}
		if !body {
			body = l == ""
			continue
		}
		if strings.HasPrefix(l, "=") && len(l) == 5 {
			continue
		}
		b64.WriteString(l)
	}
	return nil
}

// curSeed and curRun identify the run that is being generated.
var (
	curSeed uint64
	curRun  int
)

// freshRun runs the operations one after another in a new process.
func freshRun(ops []*Op) ([]*seqOut, error) {
	stats.Execs++
	b, err := json.Marshal(ops)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command("/proc/self/exe", "--seq")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("fresh process: %v: %s", err, errb.String())
	}
	var res seqResult
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, err
	}
	l := res.Outs
	stats.merge(&res.Stats)
	if len(l) != len(ops) {
		return nil, fmt.Errorf("fresh process: %d outcomes for %d operations", len(l), len(ops))
	}
	return l, nil
}

func seqMain() {
	keepZone = true
	var ops []*Op
	if err := json.NewDecoder(os.Stdin).Decode(&ops); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var l []*seqOut
	for _, op := range ops {
		hook.HotSig()
		q := seqOf(op.run())
		_, q.Hot = hook.HotSig()
		l = append(l, q)
	}
	b, _ := json.Marshal(&seqResult{l, stats})
	os.Stdout.Write(b)
}

type seqResult struct {
	Outs  []*seqOut
	Stats Stats
}
