//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
)

// ---- C07 ----

var outKinds = []string{"enospc", "epipe", "short", "eio", "closed", "opaque", "wrapeof", "timeout", "eintr",
	"fsclosed", "netclosed", "eagain", "canceled", "deadline", "permission", "unexpected", "noprogress", "shortbuf", "uncomparable", "eoftext", "reset"}

func c07gen(r *Rng, thorough bool) *Scn {
	if r.P(1, 60) {
		return procScn(r, []int{inFile}, []int{outFull, outFull, outRdOnly, outBroken})
	}
	s := &Scn{Kind: "dump", X: map[string]int{"pm": r.N(4096)}}
	switch r.N(8) {
	case 0:
		s.X["pm"] = 0
	case 1:
		s.X["pm"] = 4095
	case 2:
		s.X["last"] = r.R(1, 3)
	}
	w := &WFault{Kind: Pick(r, outKinds...), Once: r.P(1, 3)}
	if r.P(1, 10) {
		w.Kind = "silent"
	}
	var op *Op
	switch x := r.N(20); {
	case x == 0:
		s.Kind = "completion"
		op = &Op{Kind: "cli", Args: append([]string{Pick(r, "completion", "compl", "cmp")}, Pick(r, []string{"bash"}, []string{"zsh"}, []string{"fish"}, []string{"powershell"}, nil)...)}
	case x == 1:
		s.Kind = "version"
		op = &Op{Kind: "cli", Args: Pick(r, []string{"version"}, []string{"-v"}, []string{"--version"}, []string{"ver"})}
		w.Once = false
		if w.Kind == "silent" {
			w.Kind = "eio" // fmt.Fprint trusts its writer
		}
	case x < 7:
		s.Kind = "raw"
		src := Pick(r, "fetch", "hkp", "github", "ghkey")
		s.Doc = drawDoc(r, needsArmor(src) || r.P(1, 2))
		op = mkOp(src, drawOpts(r), []string{"--raw"}, Stream{Plan: drawPlan(r, len(s.Doc.Bytes()))}, frameOf(r))
	default:
		src := Pick(r, cliSources...)
		s.Doc = drawDoc(r, needsArmor(src) || r.P(1, 2))
		op = mkOp(src, drawOpts(r), drawFmt(r), Stream{Plan: drawPlan(r, len(s.Doc.Bytes()))}, frameOf(r))
	}
	if s.Kind == "version" {
		op.Err = w
	} else {
		op.Out = w
	}
	s.Ops = []*Op{op}
	return s
}

func c07check(s *Scn, rec *Rec) string {
	if s.Kind == "proc" {
		return procCheck(s, rec)
	}
	b := clone(s.Ops[0])
	b.Out, b.Err = nil, nil
	base := rec.run(s, b)
	want := base.Out
	if s.Kind == "version" {
		want = base.Errb
	}
	if base.Exit != 0 || len(want) == 0 {
		return ""
	}
	op := clone(s.Ops[0])
	at := len(want) * s.X["pm"] >> 12
	if l := s.X["last"]; l > 0 {
		at = len(want) - l
	}
	if at < 0 {
		at = 0
	}
	w := op.Out
	if s.Kind == "version" {
		w = op.Err
	}
	w.At = at
	o := rec.run(s, op)
	got, hit := o.Out, o.WFault
	if s.Kind == "version" {
		got, hit = o.Errb, o.EFault
	}
	rec.active = hit
	rec.add(s.Kind, op.Src, w.Kind, len(want))
	if hit && o.Exit == 0 {
		return fmt.Sprintf("failed write reported as success: %q: the stream failed (%s) after %d of %d bytes, exit status 0", op.Args, w.Kind, at, len(want))
	}
	if !bytes.HasPrefix(want, got) {
		return fmt.Sprintf("written bytes are no prefix: %q: failed (%s) after %d bytes: %s", op.Args, w.Kind, at, diffAt(want, got))
	}
	return ""
}

// ---- C08 ----

func bodyDoc(r *Rng, text bool) *Doc {
	if text {
		return drawDoc(r, true)
	}
	switch r.N(4) {
	case 0:
		n := r.R(1, 400)
		if r.P(1, 6) {
			n = r.R(400, 100000)
		}
		return &Doc{Raw: r.Bytes(n)}
	case 1:
		return &Doc{Raw: Hex(Pick(r, "\r\n", "\n\n\n", "\x00", "a\r\nb\r\n", "\xef\xbb\xbfbom", "  lead and trail \n ", "%d%s\n", strings.Repeat("\r\n", 50)))}
	case 2:
		if r.P(1, 2) { // whatever the web has to offer
			var b []byte
			for i := r.R(1, 20); i > 0; i-- {
				b = append(b, Pick(r, "&gt;", "&amp;", "&#10;", "<pre>", "</pre>", "<br>", "<!DOCTYPE html>\n", "%20", "+", "\\n", "\\u003c", "\t", " \n", "\f", "\v", "\x1a", "\x1b[0m", "\b", "\x7f", "\u00a0", "\u2028", "\ufeff", "\u00e9", "e\u0301", "\xe9", "\xff\xfe", "\xfe\xff", "\x1f\x8b", "BZh9", "PK\x03\x04", "\"", "'", "=", "=\n", "=3D", "- ", "-----BEGIN PGP MESSAGE-----\n", "-----END PGP MESSAGE-----\n", "\x00", "\r", "\n", "\r\n", "data", "${HOME}", "%s", "0\r\n\r\n")...)
			}
			return &Doc{Raw: b}
		}
	}
	return drawDoc(r, r.P(1, 2))
}

// redirects puts k redirections in front of the response at u.
func redirects(r *Rng, n *Net, u string, k int) string {
	codes := []int{301, 302, 303, 307, 308}
	first := u
	last := n.Resps[0]
	cur := u
	for i := 0; i < k; i++ {
		next := fmt.Sprintf("https://r%d.sim.example/x/%d?a=b", i, i)
		if r.P(1, 4) {
			next = fmt.Sprintf("http://r%d.sim.example:8080/", i)
		}
		n.Resps = append(n.Resps, &Resp{Match: cur, Status: Pick(r, codes...), Loc: next, Text: Pick(r, "", "moved\n"), Frame: "cl"})
		cur = next
	}
	last.Match = cur
	return first
}

func c08gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "fetch", "fetch", "hkp", "github", "ghkey")
	s := &Scn{Kind: "raw", Doc: bodyDoc(r, src == "ghkey"), X: map[string]int{}}
	n := len(s.Doc.Bytes())
	st := Stream{Plan: drawPlan(r, n)}
	op := mkOp(src, drawOpts(r), []string{"--raw"}, st, frameOf(r))
	rp := op.Net.Resps[0]
	if src == "ghkey" {
		n = len(s.fill(op).Net.page(1, 100))
	} else if r.P(1, 4) {
		redirects(r, op.Net, rp.Match, r.R(1, 4))
	}
	switch r.N(8) {
	case 0, 1:
		rp.Fault = &Fault{At: r.N(n + 1), Kind: Pick(r, readKinds...), With: r.P(1, 3), Once: r.P(1, 8)}
		if rp.Frame == "cl" && rp.Fault.At >= n {
			rp.Fault.At = n - 1
		}
		if src == "ghkey" && rp.Fault.At > n-2 {
			rp.Fault.At = n - 2
		}
		s.X["fail"] = 1
		if rp.Fault.Once {
			s.X["fail"] = 2
		}
	case 2:
		if rp.Frame != "close" && n > 2 {
			rp.Trunc = cp(r.N(n - 2))
			s.X["fail"] = 1
		}
	case 3:
		rp.Status = Pick(r, 400, 401, 403, 404, 410, 429, 500, 502, 503, 599)
		s.X["fail"] = 1
	case 4:
		op.Out = &WFault{At: r.N(n + 1), Kind: Pick(r, outKinds...), Once: r.P(1, 3)}
		s.X["fail"] = 3
	case 5:
		if src != "ghkey" {
			rp.Status = Pick(r, 200, 201, 203, 206)
		}
	}
	s.Ops = []*Op{dress(r, op)}
	return s
}

func c08heavy(thorough bool) []*Scn {
	var l []*Scn
	for i, n := range []int{700_000, 3_000_000, 20_000_000, 70_000_000} {
		for k, src := range []string{"fetch", "hkp", "github", "ghkey"} {
			if n > 60_000_000 && k != i%3 && !thorough {
				continue
			}
			d := &Doc{Raw: NewRng(96, uint64(i), uint64(k)).Bytes(n)}
			if src == "ghkey" {
				d = &Doc{Pk: []*Pkt{{Tag: 13, Hdr: "new5", S: Struct{F: []*Field{{N: "uid", Rep: n / 2, Rnd: 5}}}}}, Armor: &Armor{Type: "MESSAGE", Line: 64}}
			}
			l = append(l, &Scn{Kind: "raw", Doc: d, X: map[string]int{}, Ops: []*Op{mkOp(src, "u", []string{"--raw"}, Stream{Plan: Plan{Chunks: []int{30000, 7}}}, Pick(NewRng(95, uint64(i+k)), "cl", "close"))}})
		}
	}
	return l
}

func c08check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	o := rec.run(s, op)
	body := s.Doc.Bytes()
	rec.active = true
	rec.add(op.Src, s.X["fail"], len(body), len(op.Net.Resps))
	if o.Exit == 0 && !bytes.Equal(o.Out, body) {
		return "raw output altered: " + op.Src + ": exit status 0 but body and output differ: " + diffAt(body, o.Out)
	}
	if !bytes.HasPrefix(body, o.Out) {
		return "raw output altered: " + op.Src + ": not a prefix of the body: " + diffAt(body, o.Out)
	}
	switch s.X["fail"] {
	case 0:
		if o.Exit != 0 {
			return "raw output failed without cause: " + op.Src + ": " + brief(o)
		}
	case 1:
		if o.Exit == 0 && (o.RFault || op.Net.Resps[0].Status >= 400) {
			return "raw output: failure reported as success: " + op.Src + ": " + brief(o)
		}
	case 3:
		if o.Exit == 0 && o.WFault {
			return "raw output: failed write reported as success: " + brief(o)
		}
	}
	return ""
}

// ---- C09 ----

func hexID(r *Rng) string { return fmt.Sprintf("%016X", r.U64()) }

func c09gen(r *Rng, thorough bool) *Scn {
	n := Pick(r, 0, 1, 2, 5, 99, 100, 101, 150, 199, 200, 201, 250, 300, 301)
	if r.P(1, 4) {
		n = r.R(0, 330)
	}
	if r.P(1, 2) && n > 12 && r.P(1, 2) {
		n = r.R(0, 12)
	}
	if r.P(1, 60) {
		n = Pick(r, 999, 1000, 1001, r.R(330, 1500), r.R(330, 1500))
	}
	net := &Net{IsGH: true, Wild: r.N(8)}
	for i := 0; i < n; i++ {
		net.GH = append(net.GH, &GHKey{ID: hexID(r)})
	}
	target := hexID(r)
	for i := r.N(4); i > 0 && n > 0; i-- {
		pos := r.N(n)
		switch r.N(5) {
		case 0:
			pos = Pick(r, 99, 100, 199, 200, n-1, 0) % n
		case 1:
			pos = n - 1 - r.N(3)
			if pos < 0 {
				pos = 0
			}
		}
		k := net.GH[pos]
		switch r.N(8) {
		case 0:
			k.ID = target
			k.Omit = r.P(1, 2)
		case 1:
			k.Null = true
		case 2:
			k.Sub = target
		case 3:
			k.ID = target[:8] + hexID(r)[8:]
		case 4:
			k.ID = hexID(r)[:8] + target[8:]
		case 5:
			if r.P(1, 2) {
				k.ID, k.Empty = target, true
				break
			}
			fallthrough
		default:
			k.ID = Pick(r, target, strings.ToLower(target))
			k.Raw = shortArmored(r)
		}
	}
	if r.P(1, 3) && n > 0 { // a bystander with a text of its own
		k := net.GH[r.N(n)]
		if k.Raw == nil && !strings.EqualFold(k.ID, target) {
			k.Raw = shortArmored(r)
		}
	}
	if r.P(1, 6) && n > 0 { // look for something close to an existing key
		k := net.GH[r.N(n)]
		if k.Raw == nil {
			k.Raw = shortArmored(r)
		}
		id := strings.ToUpper(k.ID)
		target = Pick(r, id+" ", " "+id, "0x0x"+id, id+"\t", id[8:], id[:8], id[:15], id[1:], id+"0", "0"+id, id[12:], id[8:]+id[:8], "00000000"+id[8:], id[:15]+"G", strings.Repeat("0", 24)+id, k.ID[:1])
	}
	key := Pick(r, target, strings.ToLower(target), "0x"+target, "0X"+target, "0x"+strings.ToLower(target), "0X"+strings.ToLower(target))
	pages := n/100 + 1
	if r.P(1, 2) {
		rp := &Resp{Page: r.R(1, pages), Frame: frameOf(r), Plan: drawPlan(r, 100+n*60), Latency: r.N(3000)}
		l := len(net.page(rp.Page, 100)) - 2
		if net.Wild&4 != 0 {
			l--
		}
		switch r.N(8) {
		case 0:
			rp.Status = Pick(r, 400, 401, 403, 404, 429, 500, 502, 503)
		case 1:
			rp.ConnErr = Pick(r, "refused", "dns", "tls", "timeout", "reset", "unexpected", "wrapeof")
		case 2, 3:
			rp.Fault = &Fault{At: r.N(l + 1), Kind: Pick(r, readKinds...), With: r.P(1, 3)}
		case 4:
			rp.Trunc = cp(r.N(l + 1))
		case 5:
			rp.Text = Pick(r, " ", "[", `{"message":"Not Found"}`, "<html>", `[1,2]`, `[{"key_id":5}]`, `[{"key_id":"x","raw_key":7}]`, `"x"`, "[,]", "[{]", "\x00\xff", "[[]]")
		case 6:
			rp.Garbage = true
		}
		net.Resps = append(net.Resps, rp)
	}
	if r.P(1, 3) {
		net.Resps = append(net.Resps, &Resp{Page: r.R(1, pages), Frame: frameOf(r), Plan: drawPlan(r, 4000)})
	}
	s := &Scn{Kind: Pick(r, "lib", "lib", "raw", "dump"), Str: []string{key}}
	var op *Op
	switch s.Kind {
	case "lib":
		op = &Op{Kind: "ghkey", User: "alice", Key: key, Net: net}
	case "raw":
		op = &Op{Kind: "cli", Args: []string{"github", "--raw", "--keyid", key, "alice"}, Net: net}
	default:
		op = &Op{Kind: "cli", Args: []string{"github", "-u", "--keyid", key, "alice"}, Net: net}
	}
	s.Ops = []*Op{op}
	if s.Kind == "lib" && r.P(1, 8) {
		s.Kind = "intr"
		s.X = map[string]int{"pm": r.N(4096)}
	}
	return s
}

// c09heavy: lists of many pages.
func c09heavy(thorough bool) []*Scn {
	var l []*Scn
	for i, n := range []int{3001, 10_400} {
		r := NewRng(93, uint64(i))
		net := &Net{IsGH: true}
		for k := 0; k < n; k++ {
			net.GH = append(net.GH, &GHKey{ID: hexID(r)})
		}
		net.GH[n-1].Raw = shortArmored(r)
		key := net.GH[n-1].ID
		l = append(l, &Scn{Kind: "lib", Str: []string{key}, Ops: []*Op{{Kind: "ghkey", User: "alice", Key: key, Net: net}}},
			&Scn{Kind: "raw", Str: []string{key}, Ops: []*Op{{Kind: "cli", Args: []string{"github", "--raw", "--keyid", key, "alice"}, Net: net}}})
	}
	return l
}

func shortArmored(r *Rng) *Doc {
	g := NewG(r)
	g.small = true
	g.max = 2
	d := g.doc()
	d.Armor = g.armor(d)
	return d
}

// badJSON texts never decode as a list of keys.
func (r *Resp) breaks() bool {
	return r.Status >= 400 || r.ConnErr != "" || r.Fault != nil || r.Trunc != nil || r.Garbage || r.Text != "" || r.Stall != nil
}

func c09check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	net := op.Net
	o := rec.run(s, op)
	rec.active = true
	if s.Kind == "intr" {
		return c09intr(s, rec, o)
	}
	if len(o.Reqs) == 0 {
		return "GitHub lookup: no request was sent; " + brief(o)
	}
	u, err := url.Parse(o.Reqs[0].URL)
	if err != nil {
		return "GitHub lookup: bad URL " + o.Reqs[0].URL
	}
	_, per := pageOf(u)
	// the model: walk the pages until one decides
	want, class, pages := []byte(nil), "nokey", 0
	id := strings.ToUpper(s.Str[0])
	id = strings.TrimPrefix(id, "0X")
walk:
	for p := 1; ; p++ {
		pages = p
		for i := len(net.Resps) - 1; i >= 0; i-- {
			if net.Resps[i].Page == p {
				// a later answer for the same page adds its own faults only
				if mergedBreaks(net, p) {
					class = "invalid"
					break walk
				}
			}
		}
		lo, hi := (p-1)*per, p*per
		if lo > len(net.GH) {
			lo = len(net.GH)
		}
		if hi > len(net.GH) {
			hi = len(net.GH)
		}
		for _, k := range net.GH[lo:hi] {
			if !k.Null && strings.ToUpper(k.ID) == id {
				if k.Raw != nil && !k.Empty {
					want, class = k.Raw.Bytes(), ""
				}
				break walk
			}
		}
		if hi-lo < per {
			break
		}
	}
	rec.add(s.Kind, class, pages, len(net.GH))
	if len(o.Reqs) != pages {
		return fmt.Sprintf("GitHub lookup: %d page requests, %d decide (%d keys, expected outcome %q): %s", len(o.Reqs), pages, len(net.GH), class, brief(o))
	}
	for i, q := range o.Reqs {
		u, err := url.Parse(q.URL)
		if err != nil {
			return "GitHub lookup: bad URL " + q.URL
		}
		if p, n := pageOf(u); p != i+1 || n != per {
			return fmt.Sprintf("GitHub lookup: request %d asks for page %d of %d", i+1, p, n)
		}
	}
	switch s.Kind {
	case "lib":
		if class == "" {
			if o.Err != "" || !bytes.Equal(o.Data, want) {
				return fmt.Sprintf("GitHub lookup: wrong key: %s; %s", brief(o), diffAt(want, o.Data))
			}
		} else if o.Err == "" {
			return fmt.Sprintf("GitHub lookup: success with %d bytes, expected the %q error", len(o.Data), class)
		} else if o.Class != class {
			return fmt.Sprintf("GitHub lookup: error class %q, expected %q: %s", o.Class, class, o.Err)
		} else if len(o.Data) > 0 {
			return "GitHub lookup: data besides an error"
		}
	case "raw":
		if class == "" {
			if o.Exit != 0 || !bytes.Equal(o.Out, want) {
				return fmt.Sprintf("GitHub lookup: wrong key: %s; %s", brief(o), diffAt(want, o.Out))
			}
		} else if bad := failed("cli", o, false); bad != "" {
			return fmt.Sprintf("GitHub lookup: expected the %q failure: %s", class, bad)
		}
	default:
		if class == "" {
			k := &Scn{Doc: &Doc{Raw: want}}
			b := rec.run(k, &Op{Kind: "cli", Args: []string{"-u", "-a"}, In: &Stream{}})
			if o.Exit != b.Exit || !bytes.Equal(o.Out, b.Out) {
				return fmt.Sprintf("GitHub lookup: dump of another key: %s; %s", brief(o), diffAt(b.Out, o.Out))
			}
		} else if bad := failed("cli", o, false); bad != "" {
			return fmt.Sprintf("GitHub lookup: expected the %q failure: %s", class, bad)
		}
	}
	return ""
}

// c09intr cancels the lookup at a drawn network event: a page that could not be
// loaded for that reason must not count as an empty one.
func c09intr(s *Scn, rec *Rec, base *Outcome) string {
	op := clone(s.Ops[0])
	op.Cancel = &Cancel{Via: "ctx", At: base.Events * s.X["pm"] >> 12}
	o := rec.run(s, op)
	rec.add("intr", base.Class, o.FireReq, len(o.Reqs))
	switch {
	case o.Err == "" && (base.Err != "" || !bytes.Equal(o.Data, base.Data)):
		return fmt.Sprintf("GitHub lookup: cancelled, yet it returns a key: %s; undisturbed: %s", brief(o), brief(base))
	case o.Class == "nokey" && (base.Class != "nokey" || len(o.Reqs) < len(base.Reqs)):
		return fmt.Sprintf("GitHub lookup: cancelled before all pages were loaded (%d of %d requests), but reported as no key", len(o.Reqs), len(base.Reqs))
	}
	return ""
}

// mergedBreaks tells whether the answers scripted for a page (later ones
// override earlier ones) make it unusable.
func mergedBreaks(n *Net, page int) bool {
	var last *Resp
	text := false
	for _, r := range n.Resps {
		if r.Page == page {
			last = r
			text = text || r.Text != ""
		}
	}
	return text || (last != nil && last.breaks())
}

// ---- C10 ----

func c10gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "fetch", "hkp", "github", "ghkey", "libhkp", "libget", "libkey", "libkey", "libhkp")
	s := &Scn{Kind: src, Doc: drawDoc(r, true), X: map[string]int{"pm": r.N(4096)}}
	n := len(s.Doc.Bytes())
	st := Stream{Plan: drawPlan(r, n)}
	fr := frameOf(r)
	var op *Op
	via := "ctx"
	if strings.HasPrefix(src, "lib") {
		op = libNet(src, st, fr)
	} else {
		var fm []string
		if r.P(1, 4) {
			fm = []string{"--raw"}
		}
		op = mkOp(src, drawOpts(r), fm, st, fr)
		via = "sig"
	}
	if src == "ghkey" || src == "libkey" {
		// put the key on a later page
		var l []*GHKey
		for i := Pick(r, 0, 3, 100, 150, 230); i > 0; i-- {
			l = append(l, &GHKey{ID: hexID(r)})
		}
		op.Net.GH = append(l, op.Net.GH...)
	} else if r.P(1, 4) {
		redirects(r, op.Net, op.Net.Resps[0].Match, r.R(1, 3))
	}
	if r.P(1, 4) {
		if r.P(1, 2) {
			op.Net.Resps[0].Stall = cp(-1)
		} else {
			op.Net.Resps[0].Stall = cp(r.N(n))
		}
	}
	dress(r, op)
	op.Cancel = &Cancel{Via: via}
	if via == "ctx" && r.P(1, 12) {
		op.Cancel.At = -1
	}
	s.Ops = []*Op{op}
	return s
}

func c10check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	var base *Outcome
	stalled := op.Net.Resps[0].Stall != nil
	op = clone(op)
	b := clone(op)
	b.Cancel = nil
	b.Net.Resps[0].Stall = nil
	base = rec.run(s, b)
	if !base.OK() {
		return ""
	}
	if op.Cancel.At >= 0 {
		op.Cancel.At = base.Events * s.X["pm"] >> 12
		if stalled {
			op.Cancel.At = 1 << 30 // the interrupt comes when the server stalls
			if s.X["pm"] < 1024 {
				op.Cancel.At = base.Events * s.X["pm"] >> 12
			}
		}
	}
	o := rec.run(s, op)
	rec.add(op.Src, o.FireReq, o.FireOff, stalled)
	if o.Stuck {
		rec.active = true
		return fmt.Sprintf("interrupt ignored: %s: the server stalls and the operation keeps waiting after the interrupt", op.Src)
	}
	if !o.Fired {
		return ""
	}
	if o.After > 0 {
		rec.active = true
		return fmt.Sprintf("request after interrupt: %s: %d further requests: %v", op.Src, o.After, o.Reqs)
	}
	if o.Tries > 1 {
		rec.active = true
		return fmt.Sprintf("request after interrupt: %s: %d further attempts", op.Src, o.Tries)
	}
	if o.EvAfter > 60 {
		rec.active = true
		return fmt.Sprintf("interrupt not prompt: %s: %d network events after it", op.Src, o.EvAfter)
	}
	// what was still missing?
	need := false
	switch {
	case op.Cancel.At < 0, stalled && op.Cancel.At == 1<<30:
		need = true
	case o.FireReq < len(base.Reqs)-1:
		need = true
	case o.FireReq == len(base.Reqs)-1:
		want := len(s.fill(op).lastBody())
		need = o.FireOff < want
	default:
		// the interrupt came after everything had been delivered
	}
	if !need {
		return ""
	}
	rec.active = true
	if bad := failedOp(op, o); bad != "" {
		return fmt.Sprintf("interrupted operation succeeded: %s: interrupted at request %d after %d body bytes: %s", op.Src, o.FireReq+1, o.FireOff, bad)
	}
	return ""
}

// lastBody is the body of the last response the operation needs.
func (op *Op) lastBody() []byte {
	n := op.Net
	if !n.IsGH {
		return n.Resps[0].body()
	}
	for i, k := range n.GH {
		if strings.EqualFold(k.ID, ghKeyID) {
			t := strings.TrimRight(n.page(i/100+1, 100), "\n")
			return []byte(t)
		}
	}
	return nil
}

// ---- C11 ----

func c11gen(r *Rng, thorough bool) *Scn {
	var s *Scn
	switch r.N(9) {
	case 0, 1:
		s = c01gen(r, thorough)
	case 2:
		s = c08gen(r, thorough)
	case 3:
		s = c09gen(r, thorough)
	case 4:
		s = c10gen(r, thorough)
		s.Ops[0].Cancel.At = r.N(30)
		if s.Ops[0].Cancel.Via == "sig" && r.P(2, 3) {
			s.Ops[0].Cancel = nil
			s.Ops[0].Net.Resps[0].Stall = nil
		}
	case 5:
		s = c07gen(r, thorough)
		if w := s.Ops[0].Out; w != nil {
			w.At = r.N(3000)
		}
	case 6:
		s = c06gen(r, thorough)
	case 7:
		s = c17gen(r, thorough)
	default: // damaged packets from every source, error statuses
		src := Pick(r, "file", "file", "fetch", "hkp", "github", "ghkey")
		s = &Scn{Doc: drawDoc(r, needsArmor(src) || r.P(1, 2))}
		s.Doc.Mut = damage(r, len(s.Doc.Data())+1, 3)
		op := dress(r, mkOp(src, drawOpts(r), drawFmt(r), Stream{Plan: drawPlan(r, len(s.Doc.Bytes()))}, frameOf(r)))
		if op.Net != nil && r.P(1, 3) {
			op.Net.Resps[0].Status = Pick(r, 400, 404, 500, 503)
		}
		s.Ops = []*Op{op}
	}
	s.Kind = "close"
	return s
}

func c11check(s *Scn, rec *Rec) string {
	for _, op := range s.Ops {
		o := rec.run(s, op)
		if o.Opened > 0 {
			rec.active = true
		}
		rec.add(op.Src, op.Kind, o.Opened, o.Exit, o.RFault, o.WFault)
		if o.Open > 0 {
			return fmt.Sprintf("left open: %d of %d opened files or response bodies still open at return: %s %q; %s", o.Open, o.Opened, op.Kind, op.Args, brief(o))
		}
		if o.Open < 0 {
			return "closed twice"
		}
	}
	return ""
}

// ---- C17 ----

var users17 = []string{"alice", "a", "0x3AA5C34371567BD2", "alice@example.com", "Alice Example <alice@example.com>", "a+b@example.com", "a&b=c", "x y", "100%", "50%25", "a?b#c", "日本語", "é", "a/b/../c", "\"q\"", "'; drop", "=", "a;b", "tab\tsep", "line\nfeed", "~tilde", "*", "0xABCDEF", "a%20b", " alice", "alice ", " alice@example.com ", "alice\n", "\talice", "ALICE@EXAMPLE.COM", "0X3aa5c34371567bd2", "3aa5c34371567bd2", "  ", "a  b", "Alice  Example", "\u00e9\u0301", "a\u00a0b", "<alice@example.com>", "alice+tag@example.com", "a,b", "(x)", "a|b", "a\\b", "{x}", "^a$", "0x", "x", "search=1&op=index", "op", "mr=on", "a\x7fb", "a\r\nHost: x", "\xff", "日本 太郎 <taro@example.jp>", "0x3AA5C34371567BD2 "}
var gh17 = []string{"alice", "a", "spiegel-im-spiegel", "Alice-1", "0x1", "octo-cat-99"}
var hosts17 = []string{"ks.sim.example", "keys.sim.example", "10.0.0.7", "[2001:db8::7]", "localhost", "KS.Sim.Example", "a-b.c", "ks.sim.example.", "x"}
var urls17 = []string{"https://sim.example/", "http://sim.example/k.asc", "https://sim.example:8443/a/b%20c/d.asc?x=1&y=%20z", "http://10.0.0.7/x", "http://[2001:db8::7]:8080/x?q", "https://sim.example/%E6%97%A5", "https://sim.example/a?b=c#frag", "HTTPS://sim.example/UP", " https://sim.example/trim \n", "https://sim.example/a//b/./c/../d"}

// user17 draws a search term.
func user17(r *Rng) string {
	switch r.N(8) {
	case 0, 1: // key IDs and fingerprints
		t := hex.EncodeToString(r.Bytes(Pick(r, 4, 8, 10, 16, 20, 20, 32)))
		if r.P(1, 2) {
			t = strings.ToUpper(t)
		}
		t = Pick(r, "", "0x", "0X") + t
		if r.P(1, 6) { // grouped
			var l []string
			for ; len(t) > 4; t = t[4:] {
				l = append(l, t[:4])
			}
			t = strings.Join(append(l, t), " ")
		}
		return t
	case 2:
		var b []byte
		for i := r.R(1, Pick(r, 12, 60, 400, 3000)); i > 0; i-- {
			b = append(b, byte(r.R(0x20, 0x7e)))
		}
		if b[0] == '-' {
			b[0] = 'm'
		}
		return string(b)
	case 3: // words
		var l []string
		for i := r.R(1, 6); i > 0; i-- {
			l = append(l, Pick(r, "alice", "Bob", "example.com", "<a@b>", "&", "+", "%41", "é", "日本", "0x1234", "op=get", "#1", "a.b", "ß"))
		}
		return strings.Join(l, Pick(r, " ", "@", "", "+", "."))
	}
	return Pick(r, users17...)
}

// url17 draws a URL.
func url17(r *Rng) string {
	if r.P(1, 2) {
		return Pick(r, urls17...)
	}
	u := Pick(r, "https://", "http://") + Pick(r, "", "", "", "", "u@", "u:p@", "a%40b:p%3Aq@") + Pick(r, "sim.example", "keys.sim.example:8080", "10.0.0.7", "a-b.c:1")
	for i := r.R(0, 4); i > 0; i-- {
		u += "/" + Pick(r, "a", "key.asc", "k%2Fx", "x y", "~u", "%E6%97%A5", "a=b", "a+b", "a;b", "..", "p:q", "@", "0x12", "K.GPG", "")
	}
	if r.P(1, 2) {
		u += "/?"
		for i := r.R(0, 3); i > 0; i-- {
			u += Pick(r, "b=1", "a=2", "q=%20", "a=", "search=0x12&op=get", "x+y", "%41=b", "u=http://x/", "é=1") + "&"
		}
	}
	return u
}

func c17gen(r *Rng, thorough bool) *Scn {
	s := &Scn{Doc: drawDoc(r, true), X: map[string]int{}}
	if r.P(1, 6) {
		s.Doc.Mut = damage(r, len(s.Doc.Data())+1, 2)
	}
	body := &Resp{Share: true, Frame: frameOf(r), Plan: drawPlan(r, len(s.Doc.Bytes()))}
	switch r.N(12) {
	case 0:
		body.ConnErr = Pick(r, "refused", "dns", "tls", "timeout", "reset")
	case 1:
		body.Status = Pick(r, 400, 403, 404, 429, 500, 503)
	case 2:
		body.Fault = &Fault{At: r.N(len(s.Doc.Bytes())), Kind: Pick(r, readKinds...)}
	}
	op := &Op{Kind: "cli", Net: &Net{Resps: []*Resp{body}}}
	var base []string
	if r.P(1, 3) {
		base = append(base, optArgs(drawOpts(r))...)
	}
	if r.P(1, 4) {
		base = append(base, "--raw")
	}
	// Str: expected URL parts of the first request, then redirect targets
	chain := func() {
		if body.Status == 0 && body.ConnErr == "" && r.P(1, 3) {
			k := r.R(1, 4)
			s.X["redirects"] = k
			redirects(r, op.Net, "", k)
			// the first hop answers whatever the first request is
			first := op.Net.Resps[1]
			rest := append([]*Resp{op.Net.Resps[0]}, op.Net.Resps[2:]...)
			op.Net.Resps = append(rest, first)
			if r.P(1, 8) { // a loop
				first.Loc = "https://loop.sim.example/"
				op.Net.Resps = []*Resp{{Match: "https://loop.sim.example/", Status: 302, Loc: "https://loop.sim.example/"}, first}
				s.X["loop"] = 1
			}
		}
	}
	switch x := r.N(20); {
	case x < 7:
		s.Kind = "hkp"
		user := user17(r)
		host, port := "keys.gnupg.net", 11371
		a := append([]string{Pick(r, "hkp", "h")}, base...)
		if r.P(5, 6) {
			host = Pick(r, hosts17...)
			a = append(a, "--keyserver", host)
		}
		if r.P(1, 2) {
			port = Pick(r, 80, 443, 11371, 8080, 1, 65535, r.R(1, 65535))
			a = append(a, "--port", fmt.Sprint(port))
		}
		sc := "http"
		if r.P(1, 3) {
			sc = "https"
			a = append(a, "--secure")
		}
		if r.P(1, 10) {
			user = "-" + user
			a = append(a, "--")
		}
		op.Args = append(a, user)
		s.Str = []string{sc, fmt.Sprintf("%s:%d", host, port), "/pks/lookup", url.Values{"op": {"get"}, "search": {user}}.Encode()}
		chain()
	case x < 11:
		s.Kind = "fetch"
		raw := url17(r)
		u, _ := url.Parse(strings.TrimSpace(raw))
		op.Args = append(append([]string{Pick(r, "fetch", "fch", "f")}, base...), raw)
		s.Str = []string{u.Scheme, u.Host, u.EscapedPath(), u.RawQuery}
		chain()
	case x < 13:
		s.Kind = "github"
		user := Pick(r, gh17...)
		op.Args = append(append([]string{Pick(r, "github", "gh", "g")}, base...), user)
		s.Str = []string{"https", "github.com", "/" + user + ".gpg", ""}
		chain()
	case x < 15:
		s.Kind = "ghkey"
		user := Pick(r, gh17...)
		body.Page, body.Share = 1, false
		if body.Fault != nil {
			body.Fault = nil
		}
		op.Net.IsGH = true
		for i := Pick(r, 0, 2, 100, 130, 200, 205); i > 0; i-- {
			op.Net.GH = append(op.Net.GH, &GHKey{ID: hexID(r)})
		}
		if r.P(2, 3) {
			op.Net.GH = append(op.Net.GH, &GHKey{ID: ghKeyID, Same: true})
		}
		op.Args = append(append([]string{Pick(r, "github", "gh", "g")}, base...), "--keyid", ghKeyID, user)
		s.Str = []string{"https", "api.github.com", "/users/" + user + "/gpg_keys", ""}
	case x < 16:
		s.Kind = "libhkp"
		op.Kind, op.Host, op.Port, op.Sec, op.User = "hkp", Pick(r, hosts17...), Pick(r, 80, 443, 11371), r.P(1, 2), user17(r)
		s.Str = []string{map[bool]string{true: "https", false: "http"}[op.Sec], fmt.Sprintf("%s:%d", op.Host, op.Port), "/pks/lookup", url.Values{"op": {"get"}, "search": {op.User}}.Encode()}
		chain()
	case x < 17:
		s.Kind = "local"
		src := Pick(r, "stdin", "file", "clip", "lib", "bytes")
		op = mkOp(src, drawOpts(r), drawFmt(r), Stream{}, "")
		op.Net = &Net{Resps: []*Resp{body}}
	default:
		s.Kind = "invalid"
		op.Args = Pick(r,
			[]string{"hkp"}, []string{"hkp", "a", "b"}, []string{"hkp", "--keyserver", "", "a"}, []string{"hkp", "--port", "x", "a"}, []string{"hkp", "--nosuch", "a"}, []string{"hkp", "--port"},
			[]string{"fetch"}, []string{"fetch", "https://a.example/", "https://b.example/"}, []string{"fetch", "http://[::1"}, []string{"fetch", "http://a.example/%zz"}, []string{"fetch", ":"}, []string{"fetch", "http://a b/"}, []string{"fetch", "http://a.example/\x7f"}, []string{"fetch", ""}, []string{"fetch", "/etc/passwd"}, []string{"fetch", "file:///etc/passwd"}, []string{"fetch", "ftp://a.example/x"}, []string{"fetch", "gopher://x/"},
			[]string{"github"}, []string{"github", "a", "b"}, []string{"github", "a\x7f"}, []string{"github", "%zz"}, []string{"github", "--keyid", "AB", "%zz"}, []string{"github", "--keyid", "AB", "a\nb"}, []string{"github", "--keyid", "AB"}, []string{"github", "--keyid"},
			[]string{"nosuch"}, []string{"version"}, []string{"completion"}, []string{"-v"}, []string{"completion", "nosuch"})
		if op.Args[0] == "fetch" || op.Args[0] == "hkp" || op.Args[0] == "github" {
			s.X["fails"] = 1
		}
	}
	s.Ops = []*Op{op}
	return s
}

func urlParts(u *url.URL, sortQ bool) []string {
	q := u.RawQuery
	if sortQ {
		q = u.Query().Encode()
	}
	return []string{u.Scheme, u.Host, u.EscapedPath(), q}
}

func c17check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	o := rec.run(s, op)
	rec.active = true
	rec.add(s.Kind, s.X["redirects"], len(o.Reqs), strings.Join(s.Str, " "))
	what := fmt.Sprintf("%s %q", op.Kind, op.Args)
	for _, q := range o.Reqs {
		if q.Method != "GET" || q.Body != 0 {
			return fmt.Sprintf("unexpected request: %s: %s %s with %d bytes", what, q.Method, q.URL, q.Body)
		}
	}
	switch s.Kind {
	case "invalid", "local":
		if len(o.Reqs) > 0 {
			return fmt.Sprintf("unexpected request: %s: %v", what, o.Reqs)
		}
		if s.X["fails"] == 1 && o.Exit == 0 {
			return fmt.Sprintf("invalid argument accepted: %s: %s", what, brief(o))
		}
		return ""
	}
	if len(o.Reqs) == 0 {
		return fmt.Sprintf("no request: %s: %s", what, brief(o))
	}
	check1 := func(q Req, want []string, sortQ bool) string {
		u, err := url.Parse(q.URL)
		if err != nil {
			return fmt.Sprintf("wrong request: %s: %q is no URL", what, q.URL)
		}
		if got := urlParts(u, sortQ); !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("wrong request: %s: asked for %q, expected %q", what, got, want)
		}
		if q.Host != u.Host {
			return fmt.Sprintf("wrong request: %s: Host %q for %q", what, q.Host, q.URL)
		}
		return ""
	}
	if s.Kind == "ghkey" {
		per := 0
		for i, q := range o.Reqs {
			u, err := url.Parse(q.URL)
			if err != nil {
				return fmt.Sprintf("wrong request: %s: %q is no URL", what, q.URL)
			}
			p, n := pageOf(u)
			if i == 0 {
				per = n
			}
			if p != i+1 || n != per {
				return fmt.Sprintf("wrong request: %s: request %d asks for page %d of %d", what, i+1, p, n)
			}
			var ks []string
			for k := range u.Query() {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if l := strings.Join(ks, ","); l != "page,per_page" && l != "page" && l != "per_page" && l != "" {
				return fmt.Sprintf("wrong request: %s: parameters %s", what, l)
			}
			u.RawQuery = ""
			q.URL = u.String()
			if v := check1(q, s.Str, true); v != "" {
				return v
			}
		}
		want := len(op.Net.GH)/per + 1
		if len(op.Net.GH) > 0 && op.Net.GH[len(op.Net.GH)-1].Same {
			want = (len(op.Net.GH)-1)/per + 1
		}
		if r := op.Net.Resps[0]; r.ConnErr != "" || r.Status >= 400 {
			want = 1
		}
		if len(o.Reqs) != want {
			return fmt.Sprintf("wrong number of requests: %s: %d, expected %d", what, len(o.Reqs), want)
		}
		return ""
	}
	if v := check1(o.Reqs[0], s.Str, strings.HasSuffix(s.Kind, "hkp")); v != "" {
		return v
	}
	if s.Kind == "fetch" {
		want := ""
		if u, _ := url.Parse(strings.TrimSpace(op.Args[len(op.Args)-1])); u != nil && u.User != nil {
			pw, _ := u.User.Password()
			want = "Basic " + base64.StdEncoding.EncodeToString([]byte(u.User.Username()+":"+pw))
		}
		if got := o.Reqs[0].Auth; got != want {
			return fmt.Sprintf("wrong credentials: %s: %q, expected %q", what, got, want)
		}
	}
	if s.X["loop"] == 1 {
		if len(o.Reqs) > 12 {
			return fmt.Sprintf("redirect loop: %s: %d requests", what, len(o.Reqs))
		}
		if o.OK() {
			return "redirect loop reported as success: " + what
		}
		return ""
	}
	want := []string{}
	loc := ""
	for _, r := range op.Net.Resps {
		if r.Match == "" && r.Loc != "" {
			loc = r.Loc
		}
	}
	for loc != "" && len(want) < 20 {
		want = append(want, loc)
		next := ""
		for _, r := range op.Net.Resps {
			if r.Match == loc && r.Loc != "" {
				next = r.Loc
			}
		}
		loc = next
	}
	if len(o.Reqs) != 1+len(want) {
		return fmt.Sprintf("wrong number of requests: %s: %d, expected %d: %v", what, len(o.Reqs), 1+len(want), o.Reqs)
	}
	for i, w := range want {
		u, _ := url.Parse(w)
		if v := check1(o.Reqs[i+1], urlParts(u, false), false); v != "" {
			return v
		}
	}
	return ""
}

func init() {
	props["C07"] = &Prop{gen: c07gen, check: c07check, quick: 60000, thorough: 1500000,
		rule: "a command with output (dump in every format, --raw, completion, version) whose stream fails at a drawn byte in a drawn way; non-trivial if the write failure took effect"}
	props["C08"] = &Prop{gen: c08gen, check: c08check, heavy: c08heavy, quick: 80000, thorough: 2000000,
		rule: "a --raw command, a response body (binary or text), its framing, delivery, redirects and one failure or none; non-trivial always"}
	props["C09"] = &Prop{gen: c09gen, check: c09check, heavy: c09heavy, quick: 30000, thorough: 700000,
		rule: "a key list of 0-330 keys with drawn matches, near-matches, null entries and page failures, looked up through the library or the command; non-trivial always"}
	props["C10"] = &Prop{gen: c10gen, check: c10check, quick: 16000, thorough: 400000,
		rule: "a network operation interrupted (context or SIGINT) at a drawn network event, before, between or inside responses, stalling servers included; non-trivial if needed bytes were still missing at that moment"}
	props["C11"] = &Prop{gen: c11gen, check: c11check, quick: 80000, thorough: 2000000,
		rule: "scenarios of the other checks (read, write, network faults, interrupts, damaged input, error statuses, bad arguments) with open handles counted at return; non-trivial if a file or response body was opened"}
	props["C17"] = &Prop{gen: c17gen, check: c17check, quick: 80000, thorough: 2000000,
		rule: "a network command with drawn arguments, server behaviour and redirect chain, a local command or an invalid argument list; non-trivial always"}
}
