//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// armored tells whether a source needs armored text.
func needsArmor(src string) bool {
	switch src {
	case "clip", "hkp", "github", "ghkey":
		return true
	}
	return false
}

func frameOf(r *Rng) string { return Pick(r, "cl", "chunked", "close") }

// ---- C01 ----

var c01Sources = []string{"stdin", "stdin", "file", "file", "clip", "fetch", "fetch", "hkp", "github", "ghkey", "lib", "lib", "steps", "libhkp", "libget", "libkey"}

func libNet(src string, st Stream, frame string) *Op {
	resp := func(u string) *Net {
		return &Net{Resps: []*Resp{{Match: u, Share: st.Doc == nil, Body: st.Doc, Plan: st.Plan, Fault: st.Fault, Frame: frame}}}
	}
	switch src {
	case "libhkp":
		return &Op{Src: src, Kind: "hkp", Host: "ks.sim.example", Port: 11371, User: "alice@example.com", Net: resp(hkpURL)}
	case "libget":
		return &Op{Src: src, Kind: "ghget", User: "alice", Net: resp(ghURL)}
	case "libkey":
		op := mkOp("ghkey", "", nil, st, frame)
		return &Op{Src: src, Kind: "ghkey", User: "alice", Key: ghKeyID, Net: op.Net}
	}
	panic(src)
}

func c01gen(r *Rng, thorough bool) *Scn {
	if r.P(1, 60) {
		return procScn(r, []int{inDir, inDir, inWrOnly, inMissing}, []int{outPipe})
	}
	src := Pick(r, c01Sources...)
	arm := needsArmor(src) || (src != "steps" && r.P(1, 2))
	s := &Scn{Kind: src, Doc: drawDoc(r, arm)}
	b := s.Doc.Bytes()
	st := Stream{Plan: drawPlan(r, len(b))}
	opt := drawOpts(r)
	if arm && r.P(1, 3) && !needsArmor(src) {
		opt += "a"
	}
	frame := frameOf(r)
	n := len(b)
	isLib := strings.HasPrefix(src, "lib") && src != "lib"
	mk := func() *Op {
		if isLib {
			return libNet(src, st, frame)
		}
		return mkOp(src, opt, drawFmt(r), st, frame)
	}
	if src == "ghkey" || src == "libkey" {
		op := s.fill(mk())
		n = len(op.Net.page(1, 100))
	}
	at := r.N(n + 1)
	switch r.N(6) { // the ends deserve more than their share
	case 0:
		at = r.N(3)
	case 1:
		at = n - r.N(3)
	case 2:
		if i := bytes.IndexByte(b, '\n'); i >= 0 && i < n {
			at = i + r.N(2)
		}
	}
	if at < 0 {
		at = 0
	}
	kinds := readKinds
	f := &Fault{At: at, Kind: Pick(r, kinds...), With: r.P(1, 3), Once: r.P(1, 6)}
	if src == "steps" {
		f.Kind = Pick(r, "eio", "reset", "timeout", "closed", "opaque", "eintr", "permission", "uncomparable")
		f.With = false
	}
	st.Fault = f
	op := dress(r, mk())
	if op.Net != nil {
		rp := op.Net.Resps[0]
		switch r.N(12) {
		case 0:
			rp.Fault = nil
			rp.ConnErr = Pick(r, "refused", "dns", "tls", "timeout", "reset", "unexpected")
		case 1:
			rp.Fault = nil
			if rp.Frame == "close" {
				rp.Frame = "cl"
			}
			if at >= n {
				at = n - 1
			}
			rp.Trunc = cp(at)
		case 2:
			rp.Fault = nil
			rp.Garbage = true
		default:
			if rp.Frame == "cl" && f.At >= n {
				f.At = n - 1
			}
		}
		if src == "ghkey" || src == "libkey" {
			if rp.Fault != nil && rp.Fault.At > n-2 {
				rp.Fault.At = n - 2
			}
			if rp.Trunc != nil && *rp.Trunc > n-2 {
				rp.Trunc = cp(n - 2)
			}
		}
	}
	switch src {
	case "file":
		if r.P(1, 8) {
			op.OpenErr = Pick(r, "notexist", "permission", "eio", "wrapeof")
			op.File.Fault = nil
		}
	case "clip":
		op.Clip.Fault = nil
		op.ClipErr = true
	}
	s.Ops = []*Op{op}
	return s
}

func c01check(s *Scn, rec *Rec) string {
	if s.Kind == "proc" {
		return procCheck(s, rec)
	}
	op := s.Ops[0]
	o := rec.run(s, op)
	if !o.RFault {
		return ""
	}
	rec.active = true
	var f *Fault
	where := "clipboard"
	switch {
	case op.In != nil:
		f, where = op.In.Fault, "standard input"
		if !isCLI(op.Src) {
			where = "reader"
		}
	case op.File != nil:
		f, where = op.File.Fault, "file"
	case op.Net != nil:
		f, where = op.Net.Resps[0].Fault, "response"
	}
	rec.add(op.Src, kindsOf(s.Doc), s.Doc.Armor != nil)
	bad := failedOp(op, o)
	if bad == "" {
		return ""
	}
	what := "failed"
	if f != nil {
		what = fmt.Sprintf("failed after %d bytes (%s, with data %v)", f.At, f.Kind, f.With)
		if f.Once {
			// the failure was passing: an outcome as if it had not happened is fine
			c := clone(op)
			c.clearFaults()
			b := rec.run(s, c)
			if b.Exit == o.Exit && bytes.Equal(b.Out, o.Out) && b.Info == o.Info && bytes.Equal(b.Data, o.Data) && (b.Err == "") == (o.Err == "") {
				return ""
			}
		}
	} else if op.OpenErr != "" {
		what = "could not be opened"
	}
	return fmt.Sprintf("read failure not reported: reading the %s %s: %s; %s", where, what, bad, brief(o))
}

func (op *Op) clearFaults() {
	for _, st := range []*Stream{op.In, op.File, op.Clip} {
		if st != nil {
			st.Fault = nil
		}
	}
	if op.Net != nil {
		for _, r := range op.Net.Resps {
			r.Fault = nil
		}
	}
}

// failedOp says why the outcome is no proper failure.
func failedOp(op *Op, o *Outcome) string {
	if op.Kind != "cli" {
		if o.Err == "" && o.Panic == "" && !o.Limit {
			return "the call returned no error"
		}
		return ""
	}
	raw := false
	for _, a := range op.Args {
		if a == "--raw" {
			raw = true
		}
	}
	return failed("cli", o, raw)
}

// ---- C02 ----

// damage draws alterations of the packet octets.
func damage(r *Rng, n, max int) []Mut {
	var l []Mut
	for i := r.R(1, max); i > 0; i-- {
		off := r.N(n)
		if r.P(1, 3) {
			off = r.N(16)
		}
		switch r.N(7) {
		case 0, 1:
			l = append(l, Mut{Op: "flip", Off: off, N: r.N(8)})
		case 2:
			l = append(l, Mut{Op: "set", Off: off, B: Hex{Pick(r, byte(0), 255, 254, 192, 223, 1, 127, 128)}})
		case 3:
			l = append(l, Mut{Op: "del", Off: off, N: r.R(1, 4)})
		case 4:
			l = append(l, Mut{Op: "ins", Off: off, B: r.Bytes(r.R(1, 4))})
		case 5:
			l = append(l, Mut{Op: "dup", Off: off, N: r.R(1, 8)})
		case 6:
			l = append(l, Mut{Op: "cut", Off: r.R(1, n)})
		}
	}
	return l
}

func c02gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "stdin", "stdin", "file", "fetch", "hkp", "github", "ghkey", "lib", "lib", "steps")
	arm := needsArmor(src) || (src != "steps" && r.P(1, 2))
	s := &Scn{Kind: src, Doc: drawDoc(r, arm)}
	if src != "steps" && r.P(1, 3) {
		s.Doc.Mut = damage(r, len(s.Doc.Data())+1, 2)
		if !arm && !s.Doc.safe() {
			s.Doc.Mut = nil
		}
	}
	n := len(s.Doc.Bytes())
	if src != "steps" && r.P(1, 10) {
		s.Doc.Cut = cp(r.R(1, n+1))
	}
	opt := drawOpts(r)
	if arm && !needsArmor(src) && r.P(1, 3) {
		opt += "a"
	}
	fm := drawFmt(r)
	k := r.R(3, 5)
	for i := 0; i < k; i++ {
		st := Stream{Plan: drawPlan(r, n)}
		fr := frameOf(r)
		if i == 0 {
			st.Plan = Plan{}
			fr = "cl"
		}
		op := mkOp(src, opt, fm, st, fr)
		op.MapSeed = r.U64() | 1
		if i > 0 && r.P(1, 3) {
			op.Clock = int64(r.R(1, 4000000000))
		}
		if op.Net != nil && i > 0 && r.P(1, 3) {
			op.Net.Resps[0].Latency = r.R(1, 100000)
		}
		dress(r, op)
		s.Ops = append(s.Ops, op)
	}
	return s
}

func sameOutcome(a, b *Outcome) string {
	switch {
	case a.Exit != b.Exit:
		return fmt.Sprintf("exit status %d / %d", a.Exit, b.Exit)
	case !bytes.Equal(a.Out, b.Out):
		return "output differs: " + diffAt(a.Out, b.Out)
	case (a.Err == "") != (b.Err == ""):
		return fmt.Sprintf("error %q / %q", a.Err, b.Err)
	case a.Info != b.Info:
		return "result differs: " + diffAt([]byte(a.Info), []byte(b.Info))
	case !bytes.Equal(a.Data, b.Data):
		return "data differs: " + diffAt(a.Data, b.Data)
	case (a.Panic == "") != (b.Panic == ""):
		return fmt.Sprintf("panic %q / %q", a.Panic, b.Panic)
	}
	return ""
}

func c02check(s *Scn, rec *Rec) string {
	if len(s.Ops) < 2 {
		return ""
	}
	var base *Outcome
	rec.active = true
	for i, op := range s.Ops {
		o := rec.run(s, op)
		rec.add(op.Src, len(o.Out), o.Exit)
		if i == 0 {
			base = o
			continue
		}
		if d := sameOutcome(base, o); d != "" {
			return fmt.Sprintf("delivery changes the result: delivery 0 and delivery %d of the same bytes (%s): %s", i, op.Src, d)
		}
	}
	return ""
}

// ---- C03 ----

func c03gen(r *Rng, thorough bool) *Scn {
	if r.P(1, 25) {
		return procScn(r, []int{inFile, inPipe}, []int{outPipe})
	}
	bin := drawDoc(r, false)
	for len(bin.Data()) == 0 {
		bin = drawDoc(r, false)
	}
	s := &Scn{Kind: "sources", Doc: bin}
	if r.P(1, 4) {
		bin.Mut = damage(r, len(bin.Data()), 2)
		if !bin.safe() || len(bin.Data()) == 0 {
			bin.Mut = nil
		}
	}
	opt := drawOpts(r)
	fm := drawFmt(r)
	if r.P(1, 2) {
		fm = Pick(r, nil, []string{"-j"})
	}
	g := NewG(r)
	n := len(bin.Data())
	first := mkOp(Pick(r, "stdin", "stdin", "file"), opt, fm, Stream{Doc: bin}, "cl")
	s.Ops = append(s.Ops, first)
	for i := r.R(3, 6); i > 0; i-- {
		src := Pick(r, "stdin", "file", "clip", "fetch", "hkp", "github", "ghkey", "lib", "bytes")
		d := &Doc{Pk: bin.Pk, Raw: bin.Raw, Mut: bin.Mut}
		o := opt
		if needsArmor(src) || r.P(1, 2) {
			d.Armor = g.armor(d)
			if !needsArmor(src) && r.P(1, 3) {
				o += "a"
			}
		}
		op := mkOp(src, o, fm, Stream{Doc: d, Plan: drawPlan(r, n)}, frameOf(r))
		op.Text = true
		op.MapSeed = r.U64() | 1
		s.Ops = append(s.Ops, dress(r, op))
	}
	s.Doc = nil
	return s
}

func c03check(s *Scn, rec *Rec) string {
	if s.Kind == "proc" {
		return procCheck(s, rec)
	}
	if len(s.Ops) < 2 {
		return ""
	}
	rec.active = true
	view := func(op *Op, o *Outcome) (bool, []byte) {
		if op.Kind == "cli" {
			return o.Exit == 0, o.Out
		}
		return o.Err == "" && o.Panic == "", nil
	}
	fm := strings.Join(s.Ops[0].Args, " ")
	var ok0 bool
	var out0 []byte
	for i, op := range s.Ops {
		o := rec.run(s, op)
		ok, out := view(op, o)
		rec.add(op.Src, op.Kind, len(o.Out))
		if i == 0 {
			ok0, out0 = ok, out
			continue
		}
		if ok != ok0 {
			return fmt.Sprintf("source changes the outcome: %s: success %v; %s: success %v (%s)", s.Ops[0].Src, ok0, op.Src, ok, brief(o))
		}
		if !ok {
			continue
		}
		if op.Kind != "cli" {
			switch {
			case strings.Contains(fm, "--indent"):
				continue
			case strings.Contains(fm, "-j"):
				out = []byte(o.Info)
			default:
				out = o.Data
			}
		}
		if !bytes.Equal(out, out0) {
			return fmt.Sprintf("source changes the dump: %s / %s: %s", s.Ops[0].Src, op.Src, diffAt(out0, out))
		}
	}
	return ""
}

func c03heavy(thorough bool) []*Scn {
	var l []*Scn
	for i, n := range []int{2_500_000, 12_000_000, 40_000_000} {
		r := NewRng(97, uint64(i))
		g := NewG(r)
		bin := &Doc{Pk: []*Pkt{g.pkt(13, false), {Tag: 11, Hdr: "new5", S: Struct{F: []*Field{f1("format", 'b'), f1("namelen", 0), fB("time", []byte{1, 2, 3, 4}, true), {N: "data", Rep: n, Rnd: 77}}}}, g.pkt(2, false)}}
		s := &Scn{Kind: "sources", Ops: []*Op{mkOp("stdin", "u", nil, Stream{Doc: bin}, "")}}
		for k, src := range []string{"file", "fetch", "fetch", "hkp", "github", "ghkey", "clip", "lib", "bytes"} {
			d := bin
			if needsArmor(src) || k == 2 {
				d = &Doc{Pk: bin.Pk, Armor: &Armor{Type: "MESSAGE", Line: 64}}
			}
			op := mkOp(src, "u", nil, Stream{Doc: d, Plan: Plan{Chunks: []int{30000, 7}}}, "cl")
			op.Text = true
			if n > 20_000_000 && !thorough && k > 2 && src != "lib" {
				continue
			}
			s.Ops = append(s.Ops, op)
		}
		l = append(l, s)
	}
	// text without line breaks around the block
	for i, n := range []int{70_000, 1_200_000, 17_000_000} {
		g := NewG(NewRng(94, uint64(i)))
		pk := []*Pkt{g.pkt(13, false), g.pkt(2, false)}
		s := &Scn{Kind: "sources", Ops: []*Op{mkOp("stdin", "u", nil, Stream{Doc: &Doc{Pk: pk}}, "")}}
		long := strings.Repeat("lorem ipsum ", n/12)
		for k, src := range []string{"stdin", "file", "clip", "fetch", "hkp", "github", "ghkey", "lib", "bytes"} {
			if n > 2_000_000 && k%2 == 1 && !thorough {
				continue
			}
			a := &Armor{Type: "MESSAGE", Line: 64}
			if k%3 != 1 {
				a.Pre = long + "\n"
			}
			if k%3 != 0 {
				a.Post = "\n" + long
			}
			op := mkOp(src, "u"+Pick(g.r, "", "a"), nil, Stream{Doc: &Doc{Pk: pk, Armor: a}, Plan: Plan{Chunks: []int{50000, 11}}}, "cl")
			op.Text = true
			s.Ops = append(s.Ops, op)
		}
		l = append(l, s)
	}
	return l
}

// ---- C04 ----

var c04Sources = []string{"stdin", "stdin", "file", "clip", "fetch", "hkp", "github", "ghkey", "lib", "lib", "bytes", "steps"}

// blocks lists the packet lists nested in packets (key blocks, compressed data).
func (s *Struct) blocks(l *[]func(int) ([]*Pkt, bool)) {
	for _, f := range s.F {
		f := f
		switch {
		case f.Area != nil:
			for _, sub := range f.Area {
				sub.S.blocks(l)
			}
		case len(f.Pk) > 0:
			*l = append(*l, func(k int) ([]*Pkt, bool) {
				if k >= 0 {
					f.PCut = cp(k)
				}
				return f.Pk, true
			})
			for _, p := range f.Pk {
				p.S.blocks(l)
			}
		case f.Comp != nil && len(f.Comp.Pk) > 0:
			*l = append(*l, func(k int) ([]*Pkt, bool) {
				if k >= 0 {
					f.Comp.PCut = cp(k)
				}
				return f.Comp.Pk, true
			})
			for _, p := range f.Comp.Pk {
				p.S.blocks(l)
			}
		case f.S != nil:
			f.S.blocks(l)
		}
	}
}

func blocksOf(d *Doc) []func(int) ([]*Pkt, bool) {
	var l []func(int) ([]*Pkt, bool)
	for _, p := range d.Pk {
		p.S.blocks(&l)
	}
	return l
}

// cutKind tells what a packet sequence that ends at offset k must lead to: the
// number of complete packets (>= 0), -1 an error, -2 no claim.
func cutKind(pk []*Pkt, k int) int {
	off := 0
	for i, p := range pk {
		if k == off {
			return i
		}
		b, h := p.frame()
		if k < off+len(b) {
			if p.Hdr == "indet" && p.Tag <= 15 && k-off >= h {
				return -2
			}
			return -1
		}
		off += len(b)
	}
	return len(pk)
}

func c04gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, c04Sources...)
	kind := Pick(r, "full", "cut", "cut", "acut", "inner")
	if src == "steps" && kind == "acut" {
		kind = "cut"
	}
	arm := needsArmor(src) || kind == "acut" || (src != "steps" && r.P(1, 2))
	g := NewG(r)
	var d *Doc
	switch {
	case kind == "inner":
		for i := 0; ; i++ {
			g = NewG(r)
			g.tags = append(g.tags, 8, 2)
			d = g.doc()
			if len(blocksOf(d)) > 0 {
				break
			}
			if i > 60 {
				kind = "cut"
				break
			}
		}
	case r.P(1, 20):
		d = g.big(r.R(3000, 300000))
	case r.P(1, 20):
		g.max = 80
		d = g.doc()
	default:
		d = g.doc()
	}
	if thorough && r.P(1, 300) {
		d = g.big(r.R(1<<20, 1<<24))
	}
	s := &Scn{Kind: kind, Doc: d, X: map[string]int{}}
	n := len(d.Data())
	switch kind {
	case "cut":
		// half of the cuts fall within a few octets of a packet boundary
		k := r.R(1, n)
		if r.P(1, 2) {
			off := 0
			var bs []int
			for _, p := range d.Pk {
				off += len(p.Bytes())
				bs = append(bs, off)
			}
			k = Pick(r, bs...) + r.R(-3, 5)
		}
		if k < 1 {
			k = 1
		}
		if k > n {
			k = n
		}
		d.Mut = []Mut{{Op: "cut", Off: k}}
		s.X["k"] = k
	case "inner":
		bl := blocksOf(d)
		b := r.N(len(bl))
		pk, _ := bl[b](-1)
		m := len(pktBytes(pk))
		s.X["block"] = b
		s.X["k"] = r.R(0, m)
	}
	if arm {
		d.Armor = g.armor(d)
	} else if !d.safe() {
		return c04gen(r, thorough)
	}
	if kind == "acut" {
		e, e2 := d.Armor.End(d.Data())
		s.X["k"] = r.R(1, e)
		if r.P(1, 4) {
			s.X["k"] = e - r.N(3)
		}
		if r.P(1, 6) {
			s.X["k"] = e2
		}
		if s.X["k"] < 1 {
			s.X["k"] = 1
		}
		d.Cut = cp(s.X["k"])
	}
	opt := drawOpts(r)
	if arm && !needsArmor(src) && r.P(1, 3) {
		opt += "a"
	}
	st := Stream{Plan: drawPlan(r, len(d.Bytes()))}
	if src == "steps" && kind != "full" {
		st.Plan.EOFWith = false // see known_findings.txt
	}
	s.Ops = []*Op{dress(r, mkOp(src, opt, Pick(r, []string{"-j"}, []string{"-j"}, []string{"-j", "--indent", "2"}, nil, []string{"--indent", strconv.Itoa(r.R(1, 20))}), st, frameOf(r)))}
	return s
}

// dumpOf returns the JSON dump of a successful outcome.
func dumpOf(op *Op, o *Outcome) []byte {
	if op.Kind == "cli" {
		return o.Out
	}
	return []byte(o.Info)
}

func c04check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	d := s.Doc
	want := 0
	pk := d.Pk
	switch s.Kind {
	case "full":
		want = len(pk)
	case "cut", "eofwith":
		k := s.X["k"]
		if k < 1 || k > len(pktBytes(pk)) {
			return ""
		}
		want = cutKind(pk, k)
		if want >= 0 {
			pk = pk[:want]
		}
	case "acut":
		e, e2 := d.Armor.End((&Doc{Pk: d.Pk}).Data())
		k := s.X["k"]
		switch {
		case k < 1:
			return ""
		case k <= e:
			want = -1
		case k >= e2:
			want = len(pk)
		default:
			want = -2
		}
	case "inner":
		bl := blocksOf(d)
		if s.X["block"] >= len(bl) {
			return ""
		}
		c := clone(s)
		bl = blocksOf(c.Doc)
		in, _ := bl[s.X["block"]](-1)
		k := s.X["k"]
		if k > len(pktBytes(in)) {
			return ""
		}
		bl[s.X["block"]](k)
		s, d = c, c.Doc
		op = s.Ops[0]
		want = cutKind(in, k)
		if want >= 0 {
			want = -3 // succeeds; the shape is that of a shorter list
		}
	}
	if want == -2 {
		return ""
	}
	rec.active = s.Kind != "full" || len(pk) > 0
	o := rec.run(s, op)
	rec.add(s.Kind, op.Src, kindsOf(d), want)
	if want == -1 {
		if bad := failedOp(op, o); bad != "" {
			if s.Kind == "eofwith" {
				rec.known = "eofwith-partial"
				return ""
			}
			return fmt.Sprintf("cut input accepted (%s): ends at octet %d inside a packet: %s; %s", s.Kind, s.X["k"], bad, brief(o))
		}
		return ""
	}
	if !o.OK() {
		return fmt.Sprintf("complete input rejected (%s): %s", s.Kind, brief(o))
	}
	if want == -3 {
		return ""
	}
	g, w := "", shapeString(shapesOf(pk))
	var gp, wp []string
	if op.Kind == "cli" && !strings.Contains(strings.Join(op.Args, " "), "-j") {
		g, w = shapeOfText(o.Out), shapeString(flatShapes(shapesOf(pk)))
	} else {
		b := dumpOf(op, o)
		g = shapeOfDump(b)
		gp, wp = partsOfDump(b), partsOf(pk)
	}
	if g == w && !sameParts(gp, wp) {
		return fmt.Sprintf("contents not accounted for (%s): the input holds %s, the dump shows %s", s.Kind, short(strings.Join(wp, " ")), short(strings.Join(gp, " ")))
	}
	if g != w {
		return fmt.Sprintf("packets not accounted for (%s): the input holds %s, the dump shows %s", s.Kind, short(w), short(g))
	}
	return ""
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func c04heavy(thorough bool) []*Scn {
	p := &Pkt{Tag: 11, Hdr: "partial", Part: []int{9, 9}, S: Struct{F: []*Field{f1("format", 'b'), f1("namelen", 0), fB("time", []byte{1, 2, 3, 4}, true), {N: "data", Rep: 1100, RepB: 'x'}}}}
	d := &Doc{Pk: []*Pkt{p}, Mut: []Mut{{Op: "cut", Off: 2 + 512}}}
	k := &Scn{Kind: "eofwith", Doc: d, X: map[string]int{"k": 2 + 512}, Ops: []*Op{mkOp("steps", "u", nil, Stream{Plan: Plan{EOFWith: true}}, "")}}
	l := []*Scn{k}
	for i, n := range []int{1 << 20, 9_000_000, 33_000_001} {
		g := NewG(NewRng(99, uint64(i)))
		d := g.big(n)
		src := Pick(g.r, "stdin", "file", "fetch", "lib")
		l = append(l, &Scn{Kind: "full", Doc: d, X: map[string]int{}, Ops: []*Op{mkOp(src, "u", []string{"-j"}, Stream{Plan: Plan{Chunks: []int{40000, 3}}}, "chunked")}})
	}
	for i, n := range []int{1000, 20000} {
		g := NewG(NewRng(98, uint64(i)))
		d := &Doc{}
		for len(d.Pk) < n {
			p := g.pkt(Pick(g.r, 13, 10, 60, 11), false)
			d.Pk = append(d.Pk, p)
		}
		l = append(l, &Scn{Kind: "full", Doc: d, X: map[string]int{}, Ops: []*Op{mkOp("stdin", "u", []string{"-j"}, Stream{}, "")}})
	}
	// many things inside one packet
	for i := 0; i < 5; i++ {
		g := NewG(NewRng(93, uint64(i)))
		g.small, g.noOdd, g.tags = true, true, []int{13, 2, 6}
		area := func(n int) *Field {
			f := &Field{N: "area", LenB: 2, Req: true}
			for len(f.Area) < n {
				t := Pick(g.r, 16, 2, 3, 9, 101, 26)
				n := 4
				if t == 16 {
					n = 8
				}
				f.Area = append(f.Area, &Sub{Type: t, S: Struct{F: []*Field{{N: "x", B: g.r.Bytes(n)}}}})
			}
			return f
		}
		sig := func(a, b *Field) *Pkt {
			return &Pkt{Tag: 2, Hdr: "new", S: Struct{F: []*Field{fB("head", []byte{4, 0x13, 1, 8}, true), a, b, fB("left2", []byte{1, 2}, true), mpiField(64, g.r)}}}
		}
		d := &Doc{Pk: []*Pkt{g.pkt(13, false)}}
		switch i {
		case 0:
			d.Pk = append(d.Pk, sig(area(6000), area(300)))
		case 1:
			d.Pk = append(d.Pk, sig(area(300), area(6000)))
		case 2:
			c := &Comp{Alg: 1, Pk: g.packets(12000, true)}
			d.Pk = append(d.Pk, &Pkt{Tag: 8, Hdr: "new5", S: Struct{F: []*Field{f1("compalg", 1), {N: "data", Comp: c}}}})
		case 3:
			f := area(0)
			f.Area = []*Sub{{Type: 38, S: Struct{F: []*Field{f1("kbtype", 0), {N: "packets", Pk: []*Pkt{}}}}}}
			blk := f.Area[0].S.F[1]
			for len(pktBytes(blk.Pk)) < 50000 {
				if p := g.pkt(13, true); len(p.Bytes()) < 200 {
					blk.Pk = append(blk.Pk, p)
				}
			}
			d.Pk = append(d.Pk, sig(f, area(2)))
		case 4:
			f := &Field{N: "area", Area: []*Sub{}}
			for len(f.Area) < 5000 {
				f.Area = append(f.Area, &Sub{Type: Pick(g.r, 100, 110, 2), S: Struct{F: []*Field{{N: "x", B: g.r.Bytes(3)}}}})
			}
			d.Pk = append(d.Pk, &Pkt{Tag: 17, Hdr: "new5", S: Struct{F: []*Field{f}}})
		}
		d.Pk = append(d.Pk, g.pkt(13, false))
		for _, fm := range [][]string{{"-j"}, nil} {
			l = append(l, &Scn{Kind: "full", Doc: d, X: map[string]int{}, Ops: []*Op{mkOp("stdin", "u", fm, Stream{}, "")}})
		}
	}
	return l
}

// ---- C05 ----

// framed lists the structures whose end is given by a length in front of them.
func framedIn(s *Struct, nested bool, l *[]*Struct, areas *[]*Field) {
	for _, f := range s.F {
		switch {
		case f.Area != nil:
			if len(f.Area) > 0 {
				*areas = append(*areas, f)
			}
			for _, sub := range f.Area {
				*l = append(*l, &sub.S)
				framedIn(&sub.S, true, l, areas)
			}
		case f.Pk != nil:
			for _, p := range f.Pk {
				*l = append(*l, &p.S)
				framedIn(&p.S, true, l, areas)
			}
		case f.Comp != nil:
			for _, p := range f.Comp.Pk {
				*l = append(*l, &p.S)
				framedIn(&p.S, true, l, areas)
			}
		case f.S != nil:
			if f.LenB > 0 {
				*l = append(*l, f.S)
			}
			framedIn(f.S, true, l, areas)
		}
	}
}

func framedOf(d *Doc) ([]*Struct, []*Field) {
	var l []*Struct
	var a []*Field
	for _, p := range d.Pk {
		l = append(l, &p.S)
		framedIn(&p.S, false, &l, &a)
	}
	return l, a
}

func c05gen(r *Rng, thorough bool) *Scn {
	for {
		src := Pick(r, c04Sources...)
		g := NewG(r)
		d := g.doc()
		if !d.safe() {
			continue
		}
		ls, as := framedOf(d)
		s := &Scn{Kind: "body", Doc: d, X: map[string]int{}}
		if len(as) > 0 && r.P(1, 6) {
			s.Kind = "area"
			i := r.N(len(as))
			f := as[i]
			n := 0
			for _, sub := range f.Area {
				n += len(sub.Bytes())
			}
			s.X["i"], s.X["k"] = i, r.N(n+1)
		} else {
			i := r.N(len(ls))
			n := ls[i].reqLen()
			if n == 0 {
				continue
			}
			// prefer offsets that are claimed
			k := r.N(n)
			for t := 0; t < 8 && ls[i].cutVerdict(k) != 1; t++ {
				k = r.N(n)
			}
			s.X["i"], s.X["k"] = i, k
			if r.P(1, 8) && i < len(ls) { // the stream of a last packet of indeterminate length ends
				p := d.Pk[len(d.Pk)-1]
				if p.Tag <= 15 && p.S.reqLen() > 0 {
					s.Kind = "indet"
					p.Hdr, p.Part = "indet", nil
					s.X["k"] = r.N(p.S.reqLen())
				}
			}
		}
		if s.verdict05() != 1 {
			if r.P(1, 2) {
				continue
			}
		}
		arm := needsArmor(src) || (src != "steps" && r.P(1, 3))
		if arm {
			d.Armor = g.armor(d)
		}
		opt := drawOpts(r)
		st := Stream{Plan: drawPlan(r, len(d.Bytes()))}
		if src == "steps" {
			st.Plan.EOFWith = false
		}
		s.Ops = []*Op{dress(r, mkOp(src, opt, drawFmt(r), st, frameOf(r)))}
		return s
	}
}

// verdict05 says what the scenario's cut must lead to (see cutVerdict).
func (s *Scn) verdict05() int {
	ls, as := framedOf(s.Doc)
	i, k := s.X["i"], s.X["k"]
	switch s.Kind {
	case "area":
		if i >= len(as) {
			return 0
		}
		off := 0
		for _, sub := range as[i].Area {
			if k == off {
				return -1
			}
			n := len(sub.Bytes())
			if k < off+n {
				return 1
			}
			off += n
		}
		return 0
	case "indet":
		p := s.Doc.Pk[len(s.Doc.Pk)-1]
		if p.Hdr != "indet" || p.Tag > 15 || k >= len(p.S.Bytes()) {
			return 0
		}
		return p.S.cutVerdict(k)
	}
	if i >= len(ls) || k >= len(ls[i].Bytes()) {
		return 0
	}
	// a length-prefixed structure that is empty counts as absent
	pkts := map[*Struct]bool{}
	for _, p := range s.Doc.Pk {
		pkts[&p.S] = true
	}
	if k == 0 && !pkts[ls[i]] {
		return 0
	}
	return ls[i].cutVerdict(k)
}

func c05check(s *Scn, rec *Rec) string {
	if s.verdict05() != 1 {
		return ""
	}
	c := clone(s)
	ls, as := framedOf(c.Doc)
	k := s.X["k"]
	what := ""
	switch s.Kind {
	case "area":
		as[s.X["i"]].PCut = cp(k)
		what = "the subpacket area"
	case "indet":
		p := c.Doc.Pk[len(c.Doc.Pk)-1]
		p.S.Cut = cp(k)
		what = fmt.Sprintf("the stream inside packet %d (tag %d)", len(c.Doc.Pk)-1, p.Tag)
	default:
		what = "the " + describe(c.Doc, ls[s.X["i"]])
		what += " before the end of field " + ls[s.X["i"]].fieldAt(k)
		ls[s.X["i"]].Cut = cp(k)
	}
	if c.Doc.Armor == nil && !c.Doc.safe() {
		return ""
	}
	rec.active = true
	rec.add(s.Kind, what)
	o := rec.run(c, c.Ops[0])
	if bad := failedOp(c.Ops[0], o); bad != "" {
		return fmt.Sprintf("short structure accepted: %s ends after %d octets: %s; %s", what, k, bad, brief(o))
	}
	return ""
}

func (s *Struct) fieldAt(k int) string {
	off := 0
	for _, f := range s.F {
		n := len(f.Bytes())
		if k < off+n {
			if f.S != nil && f.LenB == 0 {
				return f.N + "." + f.S.fieldAt(k-off)
			}
			return f.N
		}
		off += n
	}
	return "?"
}

// describe names a structure of a document.
func describe(d *Doc, x *Struct) string {
	for _, p := range d.Pk {
		if t := p.describe(x); t != "" {
			return t
		}
	}
	return "structure"
}

func (p *Pkt) describe(x *Struct) string {
	if &p.S == x {
		return fmt.Sprintf("body of a tag %d packet", p.Tag)
	}
	if t := describeIn(&p.S, x); t != "" {
		return t + fmt.Sprintf(" in a tag %d packet", p.Tag)
	}
	return ""
}

func describeIn(s, x *Struct) string {
	for _, f := range s.F {
		for _, sub := range f.Area {
			if &sub.S == x {
				return fmt.Sprintf("subpacket %d", sub.Type)
			}
			if t := describeIn(&sub.S, x); t != "" {
				return t + fmt.Sprintf(" in subpacket %d", sub.Type)
			}
		}
		pk := f.Pk
		if f.Comp != nil {
			pk = f.Comp.Pk
		}
		for _, p := range pk {
			if t := p.describe(x); t != "" {
				return t
			}
		}
		if f.S == x {
			return f.N
		}
		if f.S != nil {
			if t := describeIn(f.S, x); t != "" {
				return t
			}
		}
	}
	return ""
}

// ---- C06 ----

const b64chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func c06gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "stdin", "stdin", "file", "clip", "fetch", "hkp", "github", "ghkey", "lib", "bytes")
	s := &Scn{Kind: src, Doc: drawDoc(r, true)}
	a := s.Doc.Armor
	a.NoCRC = false
	n := len(a.Lines(s.Doc.Data()))
	for i := r.R(1, 3); i > 0; i-- {
		line := r.N(n)
		if r.P(1, 4) {
			line = n - 1 // the checksum
		} else if r.P(1, 4) && n > 1 {
			line = n - 2 // the end of the data
		}
		m := Mut{Op: Pick(r, "char", "char", "char", "delchar", "delline", "dupline", "swapline"), Off: line, N: r.N(80), B: Hex{b64chars[r.N(64)]}}
		if r.P(1, 10) {
			m.B = Hex{Pick(r, byte('='), '!', ' ', 0, 200)}
		}
		a.Mut = append(a.Mut, m)
	}
	opt := drawOpts(r)
	if !needsArmor(src) && r.P(1, 2) {
		opt += "a"
	}
	s.Ops = []*Op{dress(r, mkOp(src, opt, drawFmt(r), Stream{Plan: drawPlan(r, 64*n)}, frameOf(r)))}
	return s
}

func c06check(s *Scn, rec *Rec) string {
	if s.Doc.Armor == nil || s.Doc.Armor.NoCRC {
		return ""
	}
	c := clone(s)
	c.Doc.Armor.Mut = nil
	if bytes.Equal(c.Doc.Bytes(), s.Doc.Bytes()) {
		return ""
	}
	rec.active = true
	o := rec.run(s, s.Ops[0])
	rec.add(s.Kind, o.Exit, len(s.Doc.Armor.Mut))
	if failedOp(s.Ops[0], o) == "" {
		return ""
	}
	b := rec.run(c, s.Ops[0])
	if !b.OK() || !o.OK() {
		return fmt.Sprintf("altered armor: neither a proper failure nor the original dump: %s; undamaged: %s", brief(o), brief(b))
	}
	if d := sameOutcome(b, o); d != "" {
		if s.Kind == "padcrc" {
			rec.known = "padcrc"
			return ""
		}
		return fmt.Sprintf("altered armor accepted: checksum and data disagree, yet another dump is printed: %s", d)
	}
	return ""
}

func c06heavy(thorough bool) []*Scn {
	d := &Doc{Pk: []*Pkt{{Tag: 13, Hdr: "new", S: Struct{F: []*Field{{N: "uid", B: Hex("alice@example.com")}}}}}, Armor: &Armor{Type: "MESSAGE", Line: 64}}
	d.Armor.Mut = []Mut{{Op: "char", Off: 0, N: 5, B: Hex("Z")}, {Op: "char", Off: 1, N: 4, B: Hex("==")}}
	return []*Scn{{Kind: "padcrc", Doc: d, Ops: []*Op{mkOp("stdin", "u", nil, Stream{}, "")}}}
}

func init() {
	props["C01"] = &Prop{gen: c01gen, check: c01check, quick: 120000, thorough: 3000000,
		rule: "a document, a source, a delivery schedule and one read failure (offset, error kind, with or without data, passing or lasting; or a failing open, connection or clipboard); non-trivial if the failure took effect during the run"}
	props["C02"] = &Prop{gen: c02gen, check: c02check, quick: 60000, thorough: 1500000,
		rule: "the same bytes (valid, damaged or cut) delivered under 3-5 schedules (chunks, empty reads, end with data, latency, framing, map order, clock); non-trivial always: at least two schedules differ"}
	props["C03"] = &Prop{gen: c03gen, check: c03check, heavy: c03heavy, quick: 50000, thorough: 1200000,
		rule: "the same packet octets (valid or damaged) from a first and 3-6 further sources, binary or armored with drawn surroundings; non-trivial always: at least two sources are compared"}
	props["C04"] = &Prop{gen: c04gen, check: c04check, quick: 100000, thorough: 2500000, heavy: c04heavy,
		rule: "a packet sequence of drawn types, header formats and sizes, whole or ending at a drawn octet (of the stream, the armored text, a key block or compressed data); non-trivial if the oracle makes a claim for that cut"}
	props["C05"] = &Prop{gen: c05gen, check: c05check, quick: 150000, thorough: 4000000,
		rule: "a packet sequence in which one framed structure (body, subpacket, length-prefixed part, subpacket area, indeterminate-length stream) ends inside a mandatory field; non-trivial if the oracle makes a claim for that cut"}
	props["C06"] = &Prop{gen: c06gen, check: c06check, heavy: c06heavy, quick: 100000, thorough: 2500000,
		rule: "an armored document with checksum whose body or checksum lines are altered, lost, repeated or swapped in 1-3 places; non-trivial if the text really differs from the original"}
}
