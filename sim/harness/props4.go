//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// ---- C22: packets, and parses with one context, do not influence each other ----

// c22doc draws packets that are apt to leave something behind for later ones.
func c22doc(r *Rng, max int) *Doc {
	g := NewG(r)
	g.small = !r.P(1, 20)
	g.noOdd = r.P(1, 2)
	g.max = max
	switch r.N(6) {
	case 0: // keys and their signatures
		g.tags = []int{6, 14, 13, 2, 2, 2}
		g.subs = []int{2, 3, 9, 9, 27, 32}
	case 1: // messages
		g.tags = []int{1, 3, 9, 18, 20, 1, 3, 9, 18, 11}
	case 2: // signatures
		g.tags = []int{2}
		g.subs = []int{2, 3, 3, 32, 9, 16}
	case 3: // everything inside containers
		g.tags = []int{8, 2, 6, 1, 9}
		g.subs = []int{2, 3, 9, 32, 38}
	case 4:
		g.tags = []int{2, 5, 6, 7, 14, 1, 3, 9, 18, 20, 8, 4, 17}
		g.subs = []int{2, 3, 9, 32, 38, 2, 3, 9, 11, 20}
	}
	return g.doc()
}

func c22gen(r *Rng, thorough bool) *Scn {
	s := &Scn{Kind: "stream", X: map[string]int{}}
	max := r.R(2, 7)
	if r.P(1, 40) {
		max = Pick(r, 40, 40, 120)
	}
	s.Doc = c22doc(r, max)
	opt := drawOpts(r)
	if r.P(1, 8) {
		opt += "D"
	}
	src := Pick(r, "lib", "lib", "steps", "bytes", "stdin")
	if src == "stdin" {
		opt = strings.TrimSuffix(opt, "D")
	}
	s.Ops = []*Op{mkOp(src, opt, fmtFor(src), Stream{Plan: drawPlan(r, len(s.Doc.Data()))}, "")}
	if src != "stdin" && r.P(1, 2) { // what the same context was used for before
		s.Kind = "context"
		for i := r.R(1, 3); i > 0; i-- {
			d := c22doc(r, r.R(1, 5))
			st := Stream{Doc: d, Plan: drawPlan(r, len(d.Data()))}
			switch r.N(4) {
			case 0:
				d.Cut = cp(r.N(len(d.Data()) + 1))
			case 1:
				st.Fault = &Fault{At: r.N(len(d.Data()) + 1), Kind: Pick(r, readKinds...)}
			}
			s.Ops = append([]*Op{mkOp(Pick(r, "lib", "lib", "bytes", "steps"), opt, nil, st, "")}, s.Ops...)
		}
		if src == "steps" { // the step-wise reader is given the context as it is
			s.Ops[len(s.Ops)-1].Kind, s.Ops[len(s.Ops)-1].Src = "parse", "lib"
		}
	}
	return s
}

func fmtFor(src string) []string {
	if src == "stdin" {
		return []string{"-j"}
	}
	return nil
}

// masked removes from a packet's item what depends on other packets by design.
func masked(it *Item) string {
	c := clone(it)
	var walk func(i *Item, tag string)
	walk = func(i *Item, tag string) {
		if m := reTag.FindStringSubmatch(i.Name); m != nil {
			tag = m[1]
		}
		if m := reSub.FindStringSubmatch(i.Name); m != nil && (m[1] == "3" || m[1] == "9") {
			i.Note = ""
		}
		for _, k := range i.Items {
			if (tag == "9" || tag == "18") && !reTag.MatchString(k.Name) {
				k.Note, k.Value = "", ""
			}
			walk(k, tag)
		}
	}
	walk(c, "")
	b, _ := json.Marshal(c)
	return string(b)
}

// related checks what a dump (of -u) derives from other items.
func related(l []*Item) string {
	type keyTime struct {
		t     int64
		known bool // false: no key yet, or one without a time
		used  bool
		loose bool // a nested key came in between
	}
	key := &keyTime{}
	sym, pub := false, false
	mixed := false // session keys of another nesting level
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	when := func(v string) (int64, bool) {
		t, err := time.Parse(time.RFC3339, v)
		return t.Unix(), err == nil
	}
	period := func(v string) (int64, bool) {
		d, err := strconv.ParseFloat(strings.TrimSuffix(v, " days after"), 64)
		return int64(math.Round(d * 86400)), err == nil && strings.HasSuffix(v, " days after")
	}
	utc := func(t int64) string { return time.Unix(t, 0).UTC().Format(time.RFC3339) }

	var packet func(it *Item, depth int)
	type sigState struct {
		created []int64
		used    bool
		nested  bool
	}
	var inside func(it *Item, sg *sigState, depth int)
	inside = func(it *Item, sg *sigState, depth int) {
		for _, k := range it.Items {
			if reTag.MatchString(k.Name) {
				packet(k, depth+1)
				continue
			}
			m := reSub.FindStringSubmatch(k.Name)
			if m == nil {
				inside(k, sg, depth)
				continue
			}
			switch {
			case m[1] == "2" && sg != nil:
				if t, ok := when(k.Value); ok {
					sg.created = append(sg.created, t)
				}
			case m[1] == "3" && sg != nil:
				n, ok := period(k.Value)
				if !ok {
					break
				}
				ok = k.Note == ""
				for _, c := range sg.created {
					ok = ok || c != 0 && k.Note == utc(c+n)
				}
				if !ok {
					fail("a signature created %s with a validity of %d seconds is said to expire %s", times(sg.created), n, k.Note)
				}
				if c := len(sg.created); c > 0 && sg.created[c-1] != 0 && !sg.used && k.Note == "" {
					fail("the expiration date of a signature created %s is missing", times(sg.created))
				}
				sg.used = true
			case m[1] == "9" && sg != nil:
				n, ok := period(k.Value)
				if !ok {
					break
				}
				if k.Note != "" && !key.loose && (!key.known || key.t == 0 || k.Note != utc(key.t+n)) {
					if !key.known {
						fail("a key is said to expire %s, but no key with a creation time precedes", k.Note)
					} else {
						fail("a key created %s with a validity of %d seconds is said to expire %s", utc(key.t), n, k.Note)
					}
				}
				if k.Note == "" && key.known && key.t != 0 && !key.used && !key.loose {
					fail("the expiration date of a key created %s is missing", utc(key.t))
				}
				key.used = true
			case m[1] == "38":
				inside(k, nil, depth)
				key.loose = true
				mixed = true
			default:
				inside(k, sg, depth)
			}
		}
	}
	packet = func(it *Item, depth int) {
		m := reTag.FindStringSubmatch(it.Name)
		if m == nil {
			return
		}
		switch m[1] {
		case "5", "6", "7", "14":
			key = &keyTime{}
			var find func(i *Item)
			find = func(i *Item) {
				for _, k := range i.Items {
					if k.Name == "Public key creation time" {
						key.t, key.known = when(k.Value)
					}
					find(k)
				}
			}
			find(it)
		case "1":
			pub = true
		case "3":
			sym = true
		case "9", "18":
			for _, k := range it.Items {
				hint := k.Value + k.Note
				s, p := strings.Contains(hint, "sym-key encrypted session key"), strings.Contains(hint, "pub-key encrypted session key")
				if mixed {
					continue
				}
				switch {
				case (s || p) && !sym && !pub:
					fail("an encrypted packet (tag %s) without session key packets says %q", m[1], hint)
				case s && !sym || p && !pub:
					fail("an encrypted packet (tag %s) says %q, but the message has another kind of session key", m[1], hint)
				case !s && !p && (sym || pub):
					fail("an encrypted packet (tag %s) after session key packets says %q", m[1], hint)
				}
			}
			sym, pub, mixed = false, false, false
		case "20":
			sym, pub, mixed = false, false, false
		case "2":
			inside(it, &sigState{}, depth)
		default:
			inside(it, nil, depth)
		}
	}
	for _, it := range l {
		packet(it, 0)
	}
	return bad
}

func times(l []int64) string {
	if len(l) == 0 {
		return "at an unknown time"
	}
	var s []string
	for _, t := range l {
		s = append(s, time.Unix(t, 0).UTC().Format(time.RFC3339))
	}
	return strings.Join(s, " or ")
}

func c22check(s *Scn, rec *Rec) string {
	last := s.fill(s.Ops[len(s.Ops)-1])
	rec.add(s.Kind, last.Src, kindsOf(s.Doc), len(s.Ops))
	rec.active = true
	if last.Kind != "cli" && len(s.Ops) > 1 {
		cxt := options(last.Opt)
		for _, op := range s.Ops[:len(s.Ops)-1] {
			c := *s.fill(op)
			c.cxt = cxt
			o := c.run()
			rec.logOutcome(o)
			rec.add(op.Kind, o.Err != "")
		}
		c := *last
		c.cxt = cxt
		got := c.run()
		want := last.run()
		rec.logOutcome(got)
		if d := sameOutcome(want, got); d != "" {
			return fmt.Sprintf("%s: a parse with a context that was used for %d other parses before differs from one with a new context: %s", last.Src, len(s.Ops)-1, d)
		}
	}
	o := last.run()
	rec.logOutcome(o)
	if !o.OK() {
		return "" // C04, C05
	}
	d, err := parseDump(dumpOf(last, o))
	if err != nil {
		return "" // C20
	}
	if v := related(d.Packets); v != "" {
		return fmt.Sprintf("%s: %s", last.Src, v)
	}
	if len(d.Packets) != len(s.Doc.Pk) {
		return "" // C04
	}
	n := 0
	for i, p := range s.Doc.Pk {
		if len(s.Doc.Pk) > 8 && (i*7+s.Run)%len(s.Doc.Pk) > 7 {
			continue
		}
		q := *last
		st := *last.In
		st.Doc = &Doc{Pk: []*Pkt{p}}
		if !st.Doc.safe() {
			continue
		}
		q.In = &st
		x := q.run()
		rec.logOutcome(x)
		if !x.OK() {
			return fmt.Sprintf("%s: packet %d (tag %d) is dumped among others but alone fails: %s", last.Src, i, p.Tag, brief(x))
		}
		e, err := parseDump(dumpOf(&q, x))
		if err != nil || len(e.Packets) != 1 {
			continue
		}
		n++
		if a, b := masked(e.Packets[0]), masked(d.Packets[i]); a != b {
			return fmt.Sprintf("%s: packet %d (tag %d) of %s is described differently when it is alone: %s", last.Src, i, p.Tag, kindsOf(s.Doc), diffAt([]byte(a), []byte(b)))
		}
	}
	return ""
}

func init() {
	props["C22"] = &Prop{gen: c22gen, check: c22check, quick: 60000, thorough: 1500000,
		rule: "a packet sequence (keys, signatures with creation and expiration times, embedded signatures, key blocks, session keys, encrypted and compressed data), in half of the runs after other parses - some cut or failing - with the same context; each packet is also dumped alone, and every derived date and hint is recomputed; non-trivial always"}
}
