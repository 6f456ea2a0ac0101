//go:build go1.21

package main

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

// ---- C12 ----

func c12gen(r *Rng, thorough bool) *Scn {
	s := &Scn{Kind: "tasks"}
	shared := drawSmall(r, r.P(1, 2))
	tasks := r.R(2, 4)
	if r.P(1, 40) { // a busy server
		tasks = r.R(5, 40)
	}
	s.X = map[string]int{"zone": r.N(3)}
	hot := hook.HotVars > 0 && !hook.Free && tasks <= 4 && r.P(1, 3)    // there is state the tasks share
	if (r.P(1, 12) || (hot && r.P(1, 2))) && !hook.Free && tasks <= 4 { // the first use of everything in the process
		s.X["fresh"] = 1
	}
	for i := tasks; i > 0; i-- {
		kind := Pick(r, "lib", "lib", "lib", "bytes", "steps", "libhkp", "libget", "libkey")
		arm := strings.HasPrefix(kind, "lib") && kind != "lib"
		d := drawSmall(r, arm || (kind != "steps" && r.P(1, 3)))
		if r.P(1, 3) && kind != "steps" {
			d = clone(shared)
		}
		if r.P(1, 4) && kind != "steps" {
			d.Mut = damage(r, len(d.Data())+1, 2)
		}
		st := Stream{Doc: d, Plan: drawPlan(r, len(d.Bytes()))}
		if r.P(1, 8) && kind != "steps" {
			st.Fault = &Fault{At: r.N(len(d.Bytes()) + 1), Kind: Pick(r, readKinds...)}
		}
		var op *Op
		if arm {
			op = libNet(kind, st, frameOf(r))
			if kind == "libkey" && r.P(1, 3) {
				op.Key = hexID(r)
			}
		} else {
			op = mkOp(kind, drawOpts(r), nil, st, "")
			if r.P(1, 4) {
				op.Opt = strings.Replace(op.Opt, "u", "", 1)
			}
			op.Text = r.P(1, 2)
		}
		s.Ops = append(s.Ops, op)
	}
	gap := Pick(r, 3, 10, 40, 200, 1000)
	n := Pick(r, 1, 2, 3, 10, 60, 300)
	if tasks > 4 && n < 2*tasks { // let all of them begin before one ends
		n = 2 * tasks
	}
	at := uint64(0)
	for i := 0; i < n; i++ {
		at += uint64(r.R(1, gap))
		s.Sched = append(s.Sched, hook.Preempt{Step: at, To: r.R(1, min(3, tasks))})
	}
	if s.X["fresh"] == 1 && r.P(2, 3) { // one after another through the same code, the first one stopped on its way
		for i := range s.Ops {
			s.Ops[i] = s.Ops[0]
		}
		s.Sched = nil
		at := uint64(0)
		for i := r.R(1, 2); i > 0; i-- {
			at += uint64(r.R(1, Pick(r, 30, 100, 300, 1000, 3000)))
			s.Sched = append(s.Sched, hook.Preempt{Step: at, To: 1})
		}
	}
	if hot { // switch where it is touched
		for try := 0; try < 12; try++ {
			one := &taskJob{Tasks: s.Ops[:1]}
			if one.run().Hot > 0 {
				break
			}
			op := mkOp("lib", drawOpts(r), nil, Stream{Doc: drawSmall(r, false)}, "")
			op.Text = true
			s.Ops[0] = op
		}
		if r.P(2, 3) {
			for i := range s.Ops {
				s.Ops[i] = s.Ops[0]
			}
		}
		s.Sched = nil
		at := uint64(0)
		for i := r.R(1, 4); i > 0; i-- {
			at += uint64(r.R(1, Pick(r, 2, 5, 15, 50)))
			s.Sched = append(s.Sched, hook.Preempt{Step: at, To: r.R(1, 2), Hot: true})
		}
	}
	if hook.Free {
		s.Sched = nil
	}
	return s
}

// drawSmall draws a document whose parse takes few steps.
func drawSmall(r *Rng, arm bool) *Doc {
	for {
		g := NewG(r)
		if g.max > 4 {
			g.max = 4
		}
		d := g.doc()
		if arm {
			d.Armor = g.armor(d)
			d.Armor.Pre, d.Armor.Post, d.Armor.Clear = "", "", ""
		}
		if arm || d.safe() {
			return d
		}
	}
}

// solo runs a library operation without the statistics (tasks do the same).
func (op *Op) task(o *Outcome) {
	h := &handles{}
	net := &simNet{spec: op.Net, h: h, cancel: op.Cancel, deliv: map[int]int{}, quiet: true}
	var in *simReader
	op.runLib(o, h, net, &in)
	op.collect(o, h, net, in)
}

func c12check(s *Scn, rec *Rec) string {
	if len(s.Ops) < 2 {
		return ""
	}
	job := &taskJob{Tasks: s.Ops, Sched: s.Sched, Zone: s.X["zone"]}
	fresh := s.X["fresh"] == 1
	var res *taskRes
	if fresh {
		var err error
		if res, err = job.fresh(); err != nil {
			panic(err)
		}
	} else {
		res = job.run()
	}
	rec.active = len(res.Sw) > len(s.Ops) || hook.Free
	rec.log = append(rec.log, fmt.Sprint(res.Sw, res.Steps))
	if res.Races > 0 {
		return "data race: the race detector reports unsynchronised access under the simulated schedule"
	}
	stats.Steps += res.Steps
	stats.Switch += int64(len(res.Sw))
	stats.Faults["preemption"] += int64(max(0, len(res.Sw)-len(s.Ops)))
	stats.Ops += int64(len(s.Ops))
	for i, op := range s.Ops {
		o := res.Outs[i]
		rec.log = append(rec.log, fmt.Sprintf("%d %x %q %x", o.Exit, hash64(o.Data), o.Err, hash64([]byte(o.Info))))
		if o.RFault {
			fired("read failure in a task")
		}
		if op.In != nil && op.In.Doc != nil && len(op.In.Doc.Mut) > 0 {
			fired("damaged input in a task")
		}
		stats.Reqs += int64(o.Reqs)
		one := &taskJob{Tasks: []*Op{op}, Zone: job.Zone}
		var r1 *taskRes
		if fresh {
			var err error
			if r1, err = one.fresh(); err != nil {
				panic(err)
			}
		} else {
			r1 = one.run()
		}
		a := r1.Outs[0]
		rec.add(op.Src, a.Items, a.Err == "")
		what := ""
		switch {
		case a.Exit != o.Exit:
			what = fmt.Sprintf("exit status %d / %d", a.Exit, o.Exit)
		case a.Err != o.Err:
			what = fmt.Sprintf("error %q / %q", a.Err, o.Err)
		case a.Info != o.Info:
			what = "result differs: " + diffAt([]byte(a.Info), []byte(o.Info))
		case !bytes.Equal(a.Out, o.Out):
			what = "output differs: " + diffAt(a.Out, o.Out)
		case !bytes.Equal(a.Data, o.Data):
			what = "data differs: " + diffAt(a.Data, o.Data)
		case (a.Panic == "") != (o.Panic == ""):
			what = fmt.Sprintf("panic %q / %q", a.Panic, o.Panic)
		default:
			continue
		}
		return fmt.Sprintf("tasks influence each other: task %d of %d (%s) alone / interleaved: %s", i+1, len(s.Ops), op.Src, what)
	}
	return ""
}

// taskJob is a set of tasks and the schedule they run under.
type taskJob struct {
	Tasks []*Op
	Sched []hook.Preempt
	Zone  int
}

type taskOut struct {
	seqOut
	RFault      bool
	Reqs, Items int
}

type taskRes struct {
	Outs  []*taskOut
	Sw    []int
	Steps uint64
	Hot   uint64
	Races int
}

// fresh runs the job in a new process.
func (j *taskJob) fresh() (*taskRes, error) {
	stats.Execs++
	b, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command("/proc/self/exe", "--tasks")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("fresh process: %v: %s", err, errb.String())
	}
	res := &taskRes{}
	if err := json.Unmarshal(out.Bytes(), res); err != nil {
		return nil, err
	}
	if len(res.Outs) != len(j.Tasks) {
		return nil, fmt.Errorf("fresh process: %d outcomes for %d tasks", len(res.Outs), len(j.Tasks))
	}
	return res, nil
}

func tasksMain() {
	j := &taskJob{}
	if err := json.NewDecoder(os.Stdin).Decode(j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	b, _ := json.Marshal(j.run())
	os.Stdout.Write(b)
}

func (j *taskJob) run() *taskRes {
	outs := make([]*Outcome, len(j.Tasks))
	fns := make([]func(), len(j.Tasks))
	for i := range j.Tasks {
		op := clone(j.Tasks[i])
		o := &Outcome{}
		outs[i] = o
		fns[i] = func() { op.task(o) }
	}
	switch j.Zone {
	case 1:
		time.Local = time.FixedZone("SIM", 9*3600)
	case 2:
		time.Local = loadZone("America/New_York")
	}
	defer func() { time.Local = time.UTC }()
	hook.SetClock(1600000000e9)
	hook.MapSeed = 1
	races := hook.RaceErrors()
	hook.Reset(50_000_000, nil)
	hook.HotSig()
	noCache = true
	defer func() { noCache = false }()
	switch {
	case len(fns) == 1:
		fns[0]()
	case hook.Free:
		var wg sync.WaitGroup
		for _, f := range fns {
			wg.Add(1)
			go func(f func()) { defer wg.Done(); f() }(f)
		}
		wg.Wait()
	default:
		hook.RunTasks(fns, j.Sched)
	}
	res := &taskRes{Steps: hook.Steps()}
	if len(fns) > 1 {
		res.Sw = hook.Switches()
	}
	res.Hot, _ = hook.HotSig()
	hook.Reset(1<<62, nil)
	res.Races = hook.RaceErrors() - races
	for _, o := range outs {
		res.Outs = append(res.Outs, &taskOut{*seqOf(o), o.RFault, len(o.Reqs), len(o.Items)})
	}
	return res
}

// ---- C13 ----

type seqOut struct {
	Exit             int
	Out, Errb, Data  Hex
	Err, Info, Panic string
	Hot              uint64
}

func seqOf(o *Outcome) *seqOut {
	return &seqOut{o.Exit, o.Out, o.Errb, o.Data, o.Err, o.Info, o.Panic, 0}
}

func c13op(r *Rng) *Op {
	var op *Op
	switch x := r.N(25); {
	case x >= 20: // what the other properties do
		for op == nil {
			s := Pick(r, c09gen, c09gen, c10gen, c17gen, c14net2, c08gen, c05gen, c05gen, c05gen, c06gen)(r, false)
			o := s.fill(Pick(r, s.Ops...))
			b, err := json.Marshal(o)
			if err == nil && len(b) < 40000 && o.TZ2 == "" && o.Jump == 0 {
				op = o
			}
		}
	case x < 3:
		op = &Op{Kind: "cli", Args: Pick(r, []string{"-v"}, []string{"version"}, []string{"--debug", "-v"}, []string{"--nosuch"}, []string{"nosuch"}, []string{"-h"}, []string{"completion", "fish"}, []string{"--debug", "completion", "nosuch"},
			[]string{"hkp"}, []string{"fetch", ":"}, []string{"--debug", "fetch", ":"}, []string{"github", "--keyid"}, []string{"hkp", "--port", "x", "a"}, []string{"hkp", "-h"}, []string{"--indent", "x"}, []string{"-f"}, []string{"--clipboard", "-f", "x"}, []string{"-j", "-f", "nofile"}, []string{"--debug", "-f", "nofile"}, []string{"hkp", "--keyserver", "", "a"})}
	case x < 15:
		src := Pick(r, "stdin", "stdin", "stdin", "file", "clip", "fetch", "hkp", "github", "ghkey")
		arm := needsArmor(src) || r.P(1, 2)
		d := drawSmall(r, arm)
		if r.P(1, 3) {
			d.Mut = damage(r, len(d.Data())+1, 2)
		}
		st := Stream{Doc: d}
		if r.P(1, 6) {
			st.Fault = &Fault{At: r.N(len(d.Bytes()) + 1), Kind: Pick(r, readKinds...)}
		}
		opt := drawOpts(r)
		if r.P(1, 5) {
			opt += "D"
		}
		if r.P(1, 5) && arm {
			opt += "a"
		}
		if r.P(1, 4) {
			opt = strings.Replace(opt, "u", "", 1)
		}
		fm := drawFmt(r)
		if src != "stdin" && src != "file" && src != "clip" && r.P(1, 4) {
			fm = append(fm, "--raw")
		}
		op = mkOp(src, opt, fm, st, frameOf(r))
		if op.Net != nil && r.P(1, 5) {
			op.Net.Resps[0].Status = Pick(r, 404, 500)
		}
		if r.P(1, 10) {
			op.Out = &WFault{At: r.N(300), Kind: Pick(r, outKinds...)}
		}
		if src == "hkp" && r.P(1, 2) {
			op.Args = append(op.Args[:3], append([]string{"--port", "80", "--secure"}, op.Args[3:]...)...)
		}
	default:
		kind := Pick(r, "lib", "lib", "bytes", "steps", "libkey", "libhkp")
		arm := kind == "libkey" || kind == "libhkp" || (kind != "steps" && r.P(1, 3))
		d := drawSmall(r, arm)
		if r.P(1, 3) && kind != "steps" {
			d.Mut = damage(r, len(d.Data())+1, 2)
		}
		st := Stream{Doc: d}
		if kind == "libkey" || kind == "libhkp" {
			op = libNet(kind, st, frameOf(r))
		} else {
			opt := drawOpts(r)
			if r.P(1, 5) {
				opt += "D"
			}
			op = mkOp(kind, opt, nil, st, "")
			op.Text = true
		}
	}
	op.TZ = Pick(r, "", "", "Asia/Tokyo", "America/New_York")
	op.Clock = int64(r.R(1, 4000000000))
	op.MapSeed = r.U64() | 1
	return op
}

// the runs of a block of 64 draw their operations from one pool, so that the
// fresh-process outcomes can be shared
func c13gen(r *Rng, thorough bool) *Scn {
	pool, special := c13pool()
	s := &Scn{Kind: "history"}
	if r.P(1, 8) || (special > 0 && r.P(1, 3)) { // the same again and again, then something else
		op := pool[r.N(len(pool))]
		if special > 0 && r.P(2, 3) {
			op = pool[r.N(special)]
		}
		n := Pick(r, 12, 20, 40, 70, 130, 300)
		if r.P(1, 60) || (special > 0 && r.P(1, 20)) {
			n = 1100
		}
		for ; n > 0; n-- {
			s.Ops = append(s.Ops, op)
		}
		for i := len(pool) - 1; i >= 0; i-- {
			j := r.N(i + 1)
			pool[i], pool[j] = pool[j], pool[i]
		}
		s.Ops = append(s.Ops, pool...)
		return s
	}
	n := r.R(2, 10)
	if r.P(1, 40) { // a long-lived process
		n = r.R(40, 400)
		pool = pool[:r.R(2, len(pool))]
	}
	for ; n > 0; n-- {
		s.Ops = append(s.Ops, pool[r.N(len(pool))])
	}
	return s
}

var (
	poolKey  [3]uint64
	poolMemo []*Op
	poolSpec int
)

// c13pool returns the operations of the current block of runs. Where the
// code has state that outlives an operation, they are chosen so that they
// touch it in different ways: the first ones differ in that.
func c13pool() ([]*Op, int) {
	key := [3]uint64{curSeed, uint64(curRun / 8 / 64), uint64(curRun % 8)}
	if poolMemo == nil || poolKey != key {
		pr := NewRng(curSeed, 0xc13, key[1], key[2])
		var l []*Op
		n := 0
		if hook.HotVars > 0 {
			c := make([]*Op, 400)
			for i := range c {
				c[i] = c13op(pr)
			}
			outs, err := freshRun(c)
			if err != nil {
				panic(err)
			}
			seen := map[uint64]bool{0: true}
			for i, o := range outs {
				if !seen[o.Hot] && len(l) < 16 {
					seen[o.Hot] = true
					l = append(l, c[i])
				}
			}
			n = len(l)
		}
		for len(l) < 24 {
			l = append(l, c13op(pr))
		}
		if pr.P(3, 4) {
			tz := Pick(pr, "Asia/Tokyo", "America/New_York", "")
			for _, op := range l {
				op.TZ = tz
			}
		}
		poolKey, poolMemo, poolSpec = key, l, n
	}
	return append([]*Op(nil), poolMemo...), poolSpec
}

var soloMemo = map[string]*seqOut{}

func c13check(s *Scn, rec *Rec) string {
	if len(s.Ops) < 2 {
		return ""
	}
	outs, err := freshRun(s.Ops)
	if err != nil {
		panic(err)
	}
	rec.active = true
	for i, op := range s.Ops {
		o := outs[i]
		key, _ := json.Marshal(op)
		alone := soloMemo[string(key)]
		if alone == nil {
			l, err := freshRun([]*Op{op})
			if err != nil {
				panic(err)
			}
			alone = l[0]
			if len(soloMemo) > 4000 {
				soloMemo = map[string]*seqOut{}
			}
			soloMemo[string(key)] = alone
		}
		rec.log = append(rec.log, fmt.Sprintf("%d %x %x %q %x", o.Exit, hash64(o.Out), hash64(o.Errb), o.Err, hash64([]byte(o.Info))))
		rec.add(op.Src, op.Kind, o.Exit, len(o.Out), len(o.Errb))
		what := ""
		switch {
		case o.Exit != alone.Exit:
			what = fmt.Sprintf("exit status %d / %d", alone.Exit, o.Exit)
		case !bytes.Equal(o.Out, alone.Out):
			what = "standard output: " + diffAt(alone.Out, o.Out)
		case !bytes.Equal(o.Errb, alone.Errb):
			what = "standard error: " + diffAt(alone.Errb, o.Errb)
		case o.Err != alone.Err:
			what = fmt.Sprintf("error %q / %q", alone.Err, o.Err)
		case o.Info != alone.Info:
			what = "result: " + diffAt([]byte(alone.Info), []byte(o.Info))
		case !bytes.Equal(o.Data, alone.Data):
			what = "data: " + diffAt(alone.Data, o.Data)
		case o.Panic != alone.Panic:
			what = fmt.Sprintf("panic %q / %q", alone.Panic, o.Panic)
		default:
			continue
		}
		return fmt.Sprintf("history matters: operation %d of %d (%s %q) alone in a fresh process / after the others: %s", i+1, len(s.Ops), op.Kind, op.Args, what)
	}
	return ""
}

// ---- C14 ----

// rndBody returns a packet with a plausible start and an arbitrary rest.
func (g *G) rndPkt() *Pkt {
	r := g.r
	tag := Pick(r, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 60, 0, 15, 21, 63)
	n := r.R(0, 40)
	b := r.Bytes(n)
	for i := range b {
		if i < 12 && r.P(1, 2) {
			b[i] = Pick(r, byte(0), 1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 19, 22, 32, 38, 101, 253, 254, 255)
		}
	}
	if n > 0 {
		switch tag {
		case 2, 5, 6, 7, 14:
			b[0] = Pick(r, byte(3), 4, 4, 5)
		case 1:
			b[0] = 3
		case 3:
			b[0] = Pick(r, byte(4), 5)
		case 8:
			b[0] = byte(r.N(5))
		case 20, 18:
			b[0] = 1
		}
	}
	return &Pkt{Tag: tag, Hdr: g.hdr(false), S: Struct{F: []*Field{{N: "any", B: b}}}}
}

// tamper alters fields of the document's structures; their lengths stay
// consistent, so that what follows is still understood.
func tamper(r *Rng, d *Doc) {
	var fs []*Field
	var owner []*Struct
	var walk func(s *Struct)
	var pks func(l []*Pkt)
	walk = func(s *Struct) {
		for _, f := range s.F {
			fs, owner = append(fs, f), append(owner, s)
			if f.S != nil {
				walk(f.S)
			}
			for _, x := range f.Area {
				walk(&x.S)
			}
			pks(f.Pk)
			if f.Comp != nil {
				pks(f.Comp.Pk)
			}
		}
	}
	pks = func(l []*Pkt) {
		for _, p := range l {
			walk(&p.S)
		}
	}
	pks(d.Pk)
	if len(fs) == 0 {
		return
	}
	for i := Pick(r, 1, 1, 2, 4); i > 0; i-- {
		k := r.N(len(fs))
		f, s := fs[k], owner[k]
		if f.LenB == 0 && r.P(1, 2) { // rather one with a length in front
			continue
		}
		plain := f.S == nil && f.Area == nil && f.Pk == nil && f.Comp == nil && f.Rep == 0 && f.N != "area"
		switch x := r.N(6); {
		case x == 0: // lost
			for j := range s.F {
				if s.F[j] == f {
					s.F = append(append([]*Field(nil), s.F[:j]...), s.F[j+1:]...)
					break
				}
			}
		case x == 1: // repeated
			for j := range s.F {
				if s.F[j] == f {
					s.F = append(append([]*Field(nil), s.F[:j+1]...), s.F[j:]...)
					break
				}
			}
		case !plain:
		case x == 2: // shorter
			f.B = append(Hex(nil), f.B[:r.N(len(f.B)+1)]...)
		case x == 3: // another short one
			f.B = r.Bytes(r.R(0, 4))
		case x == 4: // longer
			f.B = append(append(Hex(nil), f.B...), r.Bytes(r.R(1, 6))...)
		default:
			f.B = append(Hex(nil), f.B...)
			if len(f.B) > 0 {
				f.B[r.N(len(f.B))] = Pick(r, byte(0), 1, 2, 3, 4, 5, 8, 127, 128, 191, 192, 223, 224, 254, 255)
			}
		}
	}
}

func c14gen(r *Rng, thorough bool) *Scn {
	s := &Scn{Kind: "input"}
	if r.P(1, 8) {
		return c14net(r)
	}
	if r.P(1, 150) {
		return c14scale(r)
	}
	src := Pick(r, c04Sources...)
	g := NewG(r)
	var d *Doc
	switch x := r.N(10); {
	case x < 2:
		d = &Doc{}
		for i := r.R(1, 4); i > 0; i-- {
			d.Pk = append(d.Pk, g.rndPkt())
		}
	case x < 3 && len(samples) > 0:
		sm := Pick(r, samples...)
		if b := dearmor(sm.data); b != nil {
			d = &Doc{Raw: b}
		} else {
			d = &Doc{Raw: Hex(sm.data)}
		}
		if len(d.Raw) > 6000 {
			d = g.doc()
		}
	default:
		if r.P(1, 2) {
			g.noOdd = false
		}
		d = g.doc()
	}
	if r.P(1, 3) {
		tamper(r, d)
	}
	// cut structures anywhere
	ls, as := framedOf(d)
	if len(ls) > 0 && r.P(1, 2) {
		for i := r.R(1, 2); i > 0; i-- {
			x := ls[r.N(len(ls))]
			n := len(x.Bytes())
			if q := x.reqLen(); q > 0 && r.P(1, 2) {
				n = q
			}
			x.Cut = cp(r.N(n + 1))
		}
	}
	if len(as) > 0 && r.P(1, 5) {
		f := as[r.N(len(as))]
		f.PCut = cp(r.N(len(f.Bytes()) + 1))
	}
	if r.P(2, 3) {
		d.Mut = damage(r, len(d.Data())+1, Pick(r, 1, 1, 2, 4, 12))
	}
	arm := needsArmor(src) || (src != "steps" && r.P(1, 3))
	if arm {
		d.Armor = g.armor(d)
		if r.P(1, 10) {
			d.Armor.Mut = []Mut{{Op: Pick(r, "char", "delchar", "delline", "dupline"), Off: r.N(20), N: r.N(64), B: Hex{byte(r.N(256)), 0}}}
		}
	}
	if arm && r.P(1, 6) { // damage to the text, rather at its ends
		n := len(d.Bytes())
		d.TMut = damage(r, n, Pick(r, 1, 1, 2, 4))
		for i := range d.TMut {
			switch r.N(3) {
			case 0:
				d.TMut[i].Off = r.N(120)
			case 1:
				if d.TMut[i].Off = n - r.N(120); d.TMut[i].Off < 0 {
					d.TMut[i].Off = 0
				}
			}
		}
	}
	if r.P(1, 12) {
		n := len(d.Bytes())
		d.Cut = cp(r.N(n + 1))
	}
	s.Doc = d
	opt := drawOpts(r)
	if r.P(1, 6) {
		opt += "D"
	}
	if r.P(1, 6) {
		opt += "a"
	}
	if r.P(1, 6) {
		opt = strings.Replace(opt, "u", "", 1)
	}
	fm := drawFmt(r)
	if r.P(1, 20) {
		fm = []string{"--indent", fmt.Sprint(Pick(r, -1, -1, -3, 0, 8, 64, -2147483648))}
		if r.P(1, 2) {
			fm = append(fm, "-j")
		}
	}
	op := mkOp(src, opt, fm, Stream{Plan: drawPlan(r, len(d.Bytes()))}, frameOf(r))
	op.Text = true
	s.Ops = []*Op{op}
	return s
}

var badUsers = []string{"", " ", "..", "a/b", "a?b", "%", "%zz", "a b", "\x00", "\n", "é", ":", "a:b", "//", "#", "@", "a@b", "\xff", strings.Repeat("a", 3000), "[", "]", "\\", "{}"}

func c14net2(r *Rng, thorough bool) *Scn { return c14net(r) }

// c14net draws hostile servers and arguments.
func c14net(r *Rng) *Scn {
	s := &Scn{Kind: "net", Doc: bodyDoc(r, r.P(1, 2))}
	src := Pick(r, "fetch", "hkp", "github", "ghkey", "libkey", "libhkp", "libget")
	st := Stream{Plan: drawPlan(r, len(s.Doc.Bytes()))}
	var op *Op
	if strings.HasPrefix(src, "lib") {
		op = libNet(src, st, frameOf(r))
	} else {
		var fm []string
		if r.P(1, 3) {
			fm = []string{"--raw"}
		}
		op = mkOp(src, drawOpts(r), fm, st, frameOf(r))
	}
	rp := op.Net.Resps[0]
	if r.P(1, 3) {
		rp.Match, rp.Page = "", 0
		if src == "ghkey" || src == "libkey" {
			op.Net.IsGH = false
			rp.Text = hostileJSON(r)
			if strings.Count(rp.Text, ",") >= 99 {
				s.X = map[string]int{"endless": 1}
			}
			rp.Body, rp.Share = nil, false
		}
	}
	if r.P(1, 4) {
		rp.Status = Pick(r, 200, 204, 206, 301, 302, 304, 307, 400, 404, 418, 500, 599, 999)
	}
	if r.P(1, 6) {
		rp.Loc = Pick(r, "/", "", "https://sim.example/x", "ftp://x/", ":", "//", "%zz", "http://[::1", fetchURL)
		rp.Status = Pick(r, 301, 302, 303, 307, 308)
	}
	if r.P(1, 6) {
		rp.Fault = &Fault{At: r.N(len(s.Doc.Bytes()) + 1), Kind: Pick(r, readKinds...), With: r.P(1, 2)}
	}
	if r.P(1, 3) {
		u := Pick(r, badUsers...)
		if op.Kind == "cli" {
			op.Args[len(op.Args)-1] = u
		} else {
			op.User = u
		}
	}
	if op.Kind == "ghkey" && r.P(1, 4) {
		op.Key = Pick(r, "0x", "0X", "x", "\xff", strings.Repeat("F", 1000), "", " ")
	}
	if op.Kind == "hkp" && r.P(1, 4) {
		op.Host, op.Port = Pick(r, "", ":", "[", "a b", "é", "\x00"), Pick(r, 0, -1, 70000, 11371)
	}
	s.Ops = []*Op{op}
	return s
}

func hostileJSON(r *Rng) string {
	return Pick(r, "null", "[null]", "[null,null]", "[]", "[{}]", `[{"key_id":null}]`, `[{"key_id":"`+ghKeyID+`"}]`, `[{"key_id":"`+ghKeyID+`","raw_key":null}]`, `[{"key_id":"`+ghKeyID+`","raw_key":""}]`,
		`[{"key_id":"`+ghKeyID+`","raw_key":"\ud800"}]`, `[{"subkeys":null,"emails":null}]`, `[{"subkeys":[null],"emails":[null]}]`, `{}`, `{"a":[]}`, `[[]]`, `[1e999]`, `[{"id":1e400}]`, `[{"created_at":"x"}]`, `[{"expires_at":5}]`, strings.Repeat("[", 2000), `[{"key_id":"`+ghKeyID+`","raw_key":"-----BEGIN PGP PUBLIC KEY BLOCK-----"}]`,
		"["+strings.Repeat("null,", 99)+"null]", "["+strings.Repeat("{},", 99)+"{}]", "\xef\xbb\xbf[]", `[{"key_id":"`+strings.ToLower(ghKeyID)+`","raw_key":"x"}]`, "", " ", "0", "true", `"s"`)
}

// What grows in a "scale" scenario.
const (
	growPkt = iota
	growSub
	growInner
	growBody
	growPre
	growClear
	growPost
	growHdrs
	growDepth
	growKeys
	growKinds
)

func c14scale(r *Rng) *Scn {
	what := r.N(growKinds)
	s := &Scn{Kind: "scale", X: map[string]int{"what": what, "n": Pick(r, 100, 200, 400), "i": r.N(1000), "j": r.N(1000)}}
	src := Pick(r, c04Sources...)
	g := NewG(r)
	d := g.doc()
	s.Doc = d
	for i := 0; i < 40 && what < growPre && s.grown(4*s.X["n"]) == nil; i++ {
		d = g.doc()
		s.Doc = d
	}
	switch what {
	case growPre, growClear, growPost, growHdrs:
		for src == "steps" {
			src = Pick(r, c04Sources...)
		}
		d.Armor = g.armor(d)
	case growDepth:
		s.X["n"] = r.R(20, 50)
	case growKeys:
		src = "ghkey"
		s.X["n"] = r.R(10, 60)
	}
	if d.Armor == nil && (needsArmor(src) || (src != "steps" && r.P(1, 3))) {
		d.Armor = g.armor(d)
	}
	op := mkOp(src, drawOpts(r), drawFmt(r), Stream{}, frameOf(r))
	op.Text = true
	s.Ops = []*Op{op}
	return s
}

// packed tells whether the document may hold compressed data, which may take
// much memory.
func (d *Doc) packed() bool {
	for _, p := range d.Pk {
		if p.Tag == 8 {
			return true
		}
	}
	return d.Raw != nil
}

// c14heavy: the same, larger.
func c14heavy(thorough bool) []*Scn {
	var l []*Scn
	for what := 0; what < growKinds; what++ {
		for k := 0; k < 3; k++ {
			r := NewRng(96, uint64(what), uint64(k))
			s := c14scale(r)
			for s.X["what"] != what || (what < growPre && s.grown(400) == nil) || (k < 2 && what != growInner && s.Doc.packed()) || len(s.Doc.Bytes()) > 3000 {
				s = c14scale(r)
			}
			s.X["n"] = 2500
			switch what {
			case growDepth:
				s.X["n"] = 700
				s.Ops = []*Op{mkOp("stdin", "u", nil, Stream{}, "")}
			case growKeys:
				s.X["n"] = 1200
			}
			l = append(l, s)
		}
	}
	return l
}

// grown returns the scenario's operation on a document in which one thing is
// there n times; nil if there is no such thing.
func (s *Scn) grown(n int) *Op {
	b, _ := json.Marshal(s)
	c := &Scn{}
	if json.Unmarshal(b, c) != nil {
		return nil
	}
	d, i, j := c.Doc, s.X["i"], s.X["j"]
	rep := func(l []*Pkt) []*Pkt {
		k := i % len(l)
		out := append([]*Pkt(nil), l[:k]...)
		for x := 0; x < n; x++ {
			out = append(out, l[k])
		}
		return append(out, l[k+1:]...)
	}
	var areas, plain, inner []*Field
	var walk func(l []*Pkt)
	var fields func(x *Struct)
	fields = func(x *Struct) {
		for k, f := range x.F {
			if len(f.Area) > 0 {
				areas = append(areas, f)
				for _, y := range f.Area {
					fields(&y.S)
				}
			}
			if f.S != nil {
				fields(f.S)
			}
			if k == len(x.F)-1 && len(f.B) > 0 && f.LenB == 0 && x.Cut == nil {
				plain = append(plain, f)
			}
			if len(f.Pk) > 0 || (f.Comp != nil && len(f.Comp.Pk) > 0) {
				inner = append(inner, f)
			}
			walk(f.Pk)
			if f.Comp != nil {
				walk(f.Comp.Pk)
			}
		}
	}
	walk = func(l []*Pkt) {
		for _, p := range l {
			fields(&p.S)
		}
	}
	walk(d.Pk)
	line := "- surrounding: text -----\n"
	switch s.X["what"] {
	case growPkt:
		if len(d.Pk) == 0 {
			return nil
		}
		d.Pk = rep(d.Pk)
	case growSub:
		if len(areas) == 0 {
			return nil
		}
		f := areas[i%len(areas)]
		k := j % len(f.Area)
		x := f.Area[k]
		if u, room := len(x.Bytes())*4*s.X["n"], 50000-len(f.Bytes()); f.LenB == 2 && u > room {
			if len(areas) > 1 && areas[0] != f {
				room /= 2 // it may lie inside another
			}
			if n = n * room / u; room <= 0 || n < 10 {
				return nil
			}
		}
		for y := 1; y < n; y++ {
			f.Area = append(f.Area, x)
		}
	case growInner:
		if len(inner) == 0 {
			return nil
		}
		if f := inner[j%len(inner)]; f.Comp != nil {
			f.Comp.Pk = rep(f.Comp.Pk)
		} else {
			f.Pk = rep(f.Pk)
		}
	case growBody:
		if len(plain) == 0 {
			return nil
		}
		f := plain[i%len(plain)]
		f.B = bytes.Repeat(f.B, 1+50*n/len(f.B))
	case growPre:
		d.Armor.Pre += strings.Repeat(line, n)
	case growClear:
		d.Armor.Clear += strings.Repeat(line, n)
	case growPost:
		d.Armor.Post += strings.Repeat(line, n)
	case growHdrs:
		for x := 0; x < n; x++ {
			d.Armor.Hdrs = append(d.Armor.Hdrs, "Comment: "+line[:9])
		}
	case growDepth:
		x := Struct{F: []*Field{fB("v", []byte{4, 0x18, 1, 8}, true), {N: "area", LenB: 2}, {N: "area", LenB: 2}, fB("left", []byte{1, 2}, true), fB("mpi", []byte{0, 1, 1}, true)}}
		for y := 0; y < n; y++ {
			z := x
			x = Struct{F: append([]*Field(nil), x.F...)}
			x.F[1] = &Field{N: "area", LenB: 2, Area: []*Sub{{Type: 32, S: z}}}
		}
		d.Pk = append(d.Pk, &Pkt{Tag: 2, Hdr: "new", S: x})
	case growKeys:
		k := c.Ops[0].Net.GH
		for x := 0; x < n; x++ {
			c.Ops[0].Net.GH = append([]*GHKey{k[0]}, c.Ops[0].Net.GH...)
		}
	}
	if len(c.Ops) == 0 {
		return &Op{}
	}
	return c.fill(c.Ops[0])
}

// c14grow: four times the input takes about four times the work.
func c14grow(s *Scn, rec *Rec) string {
	n := s.X["n"]
	a, b := s.grown(n), s.grown(4*n)
	if a == nil || b == nil {
		return ""
	}
	oa := a.boundedRun(400_000_000)
	rec.logOutcome(oa)
	if oa.Panic != "" {
		return fmt.Sprintf("panic: %s", oa.Panic)
	}
	max := oa.Steps*4 + oa.Steps*4/3*2 + 20000
	if s.X["what"] == growDepth {
		max *= 4 // indentation grows with the depth
	}
	ob := b.boundedRun(max)
	rec.logOutcome(ob)
	rec.active = true
	rec.add("scale", s.X["what"], n, oa.Exit, ob.Exit, a.Src)
	if ob.Limit || oa.Limit {
		return fmt.Sprintf("no proportion: %d steps are enough for a document, but with four times as much in it %d steps are not", oa.Steps, max)
	}
	if ob.Panic != "" {
		return fmt.Sprintf("panic: %s", ob.Panic)
	}
	if s.X["what"] != growDepth && ob.Alloc > 10*oa.Alloc+64<<20 {
		return fmt.Sprintf("no proportion: a document with four times as much in it takes more than ten times the memory (%d MB)", ob.Alloc>>20)
	}
	return ""
}

func c14check(s *Scn, rec *Rec) string {
	if s.Kind == "scale" {
		return c14grow(s, rec)
	}
	op := s.fill(s.Ops[0])
	n := 0
	for _, st := range []*Stream{op.In, op.File, op.Clip} {
		if st != nil {
			n += len(st.Doc.Bytes())
		}
	}
	if op.Net != nil {
		for _, r := range op.Net.Resps {
			n += len(r.body())
		}
		for _, k := range op.Net.GH {
			if k.Raw != nil {
				n += len(k.Raw.Bytes())
			}
			n += 300
		}
		n *= 12 // redirect chains and pages
		n += 200000
	}
	o := op.boundedRun(uint64(1_000_000 + 3000*n))
	rec.logOutcome(o)
	rec.active = true
	rec.add(s.Kind, op.Src, kindsOf(s.Doc), o.Exit, o.Err != "", len(o.Out))
	if o.Limit {
		return fmt.Sprintf("no end in sight: more than %d steps for %d bytes of input", 1_000_000+3000*n, n)
	}
	if o.Panic != "" {
		return fmt.Sprintf("panic: %s", o.Panic)
	}
	if o.Alloc > uint64(256<<20+20000*n) && s.Kind == "input" && !s.Doc.packed() {
		return fmt.Sprintf("no proportion: hundreds of megabytes of memory for %d bytes of input", n)
	}
	if o.Over && s.X["endless"] == 0 {
		return fmt.Sprintf("no end in sight: %d requests, the last %s", len(o.Reqs), o.Reqs[len(o.Reqs)-1].URL)
	}
	return ""
}

func (op *Op) boundedRun(limit uint64) *Outcome {
	c := *op
	c.Limit = limit
	return c.run()
}

// ---- C15 ----

var zones = []string{"UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Kiritimati", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu", "Africa/Monrovia", "Europe/Dublin", "America/Sao_Paulo", "Pacific/Marquesas", "Antarctica/Troll", "fixed:0", "fixed:1", "fixed:-1", "fixed:3599", "fixed:50400", "fixed:-43200", "fixed:5400", "fixed:-12345", "fixed:86340"}

func c15gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "stdin", "file", "fetch", "github", "lib", "bytes", "steps")
	arm := needsArmor(src) || (src != "steps" && r.P(1, 4))
	g := NewG(r)
	if r.P(3, 4) { // packets with times in them
		for i := r.R(1, 3); i > 0; i-- {
			g.tags = append(g.tags, Pick(r, 2, 2, 2, 6, 14, 5, 7, 11))
		}
	}
	d := g.doc()
	if arm {
		d.Armor = g.armor(d)
	} else if !d.safe() {
		return c15gen(r, thorough)
	}
	s := &Scn{Doc: d}
	opt := drawOpts(r)
	fm := drawFmt(r)
	st := Stream{Plan: drawPlan(r, len(d.Bytes()))}
	fr := frameOf(r)
	s.Kind = Pick(r, "utc", "local")
	if s.Kind == "local" {
		opt = strings.Replace(opt, "u", "", 1)
	}
	moments := momentsOf(d)
	for i := 0; i < 3; i++ {
		op := mkOp(src, opt, fm, st, fr)
		op.Text = true
		op.TZ = Pick(r, zones...)
		if i == 0 {
			op.TZ = "UTC"
		}
		op.Clock = Pick(r, int64(1), 86400, 1600000000, 2147483647, 2147483648, 4294967296, 253402300799)
		if r.P(1, 2) {
			op.Clock = int64(r.R(1, 5000000000))
		}
		if len(moments) > 0 && r.P(1, 2) { // around an instant of the document
			op.Clock = Pick(r, moments...) + int64(Pick(r, r.R(-90000, 90000), r.R(-3, 3), r.R(-40*86400, 40*86400)))
			if op.Clock < 1 {
				op.Clock = 1
			}
		}
		if i > 0 && r.P(1, 3) {
			op.JumpAt, op.Jump = uint64(r.R(1, 400)), int64(r.R(-2000000000, 2000000000))
		}
		if i > 0 && r.P(1, 3) {
			op.TZ2, op.TZAt = Pick(r, zones...), uint64(r.R(1, 600))
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

// momentsOf lists the instants a document speaks of.
func momentsOf(d *Doc) []int64 {
	var ts, es []int64
	var walk func(s *Struct)
	walk = func(s *Struct) {
		for _, f := range s.F {
			v := int64(0)
			for _, b := range f.B {
				v = v<<8 | int64(b)
			}
			switch f.N {
			case "time":
				ts = append(ts, v)
			case "expire":
				es = append(es, v)
			case "days":
				es = append(es, v*86400)
			}
			for _, x := range f.Area {
				walk(&x.S)
			}
			pk := f.Pk
			if f.Comp != nil {
				pk = f.Comp.Pk
			}
			for _, p := range pk {
				walk(&p.S)
			}
			if f.S != nil {
				walk(f.S)
			}
		}
	}
	for _, p := range d.Pk {
		walk(&p.S)
	}
	if len(ts) > 12 {
		ts = ts[:12]
	}
	l := append([]int64(nil), ts...)
	for _, t := range ts {
		for _, e := range es {
			l = append(l, t+e)
		}
	}
	return l
}

var reTime = regexp.MustCompile(`[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(Z|[+-][0-9]{2}:[0-9]{2})`)

var reTimeOnly = regexp.MustCompile(`^` + reTime.String() + `$`)

// shownTimes compares the timestamps of a JSON dump with those of the document.
func shownTimes(d *Doc, dump []byte) string {
	if d.Raw != nil || len(dump) == 0 || dump[0] != '{' {
		return ""
	}
	dd, err := parseDump(dump)
	if err != nil {
		return ""
	}
	var got, want []string
	var walk func(l []*Item)
	walk = func(l []*Item) {
		for _, it := range l {
			if reTimeOnly.MatchString(it.Value) {
				t, _ := time.Parse(time.RFC3339, it.Value)
				got = append(got, t.UTC().Format(time.RFC3339))
			}
			walk(it.Items)
		}
	}
	walk(dd.Packets)
	var in func(pk []*Pkt)
	var inS func(s *Struct, tag int)
	inS = func(s *Struct, tag int) {
		for _, f := range s.F {
			if f.N == "time" && !(tag == 11 && string(f.B) == "\x00\x00\x00\x00") {
				t := int64(0)
				for _, b := range f.B {
					t = t<<8 | int64(b)
				}
				want = append(want, time.Unix(t, 0).UTC().Format(time.RFC3339))
			}
			for _, x := range f.Area {
				inS(&x.S, 0)
			}
			in(f.Pk)
			if f.Comp != nil && f.Comp.Alg <= 3 {
				in(f.Comp.Pk)
			}
			if f.S != nil {
				inS(f.S, tag)
			}
		}
	}
	in = func(pk []*Pkt) {
		for _, p := range pk {
			inS(&p.S, p.Tag)
		}
	}
	in(d.Pk)
	if len(got) != len(want) {
		return fmt.Sprintf("timestamps: %d in the input, %d in the dump", len(want), len(got))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("a timestamp of the input, %s, is shown as %s", want[i], got[i])
		}
	}
	return ""
}

func c15check(s *Scn, rec *Rec) string {
	if len(s.Ops) < 2 {
		return ""
	}
	view := func(op *Op, o *Outcome) string {
		if op.Kind == "cli" {
			return string(o.Out)
		}
		return o.Info + "\n" + string(o.Data)
	}
	var base string
	var ok0 bool
	for i, op := range s.Ops {
		o := rec.run(s, op)
		v := view(op, o)
		rec.add(s.Kind, op.Src, op.TZ, op.TZ2, len(v))
		ts := reTime.FindAllString(v, -1)
		if len(ts) > 0 {
			rec.active = true
		}
		if i == 0 {
			base, ok0 = v, o.OK()
			if !ok0 {
				return ""
			}
			if v := shownTimes(s.Doc, dumpOf(op, o)); v != "" && s.Kind == "utc" {
				return v
			}
			continue
		}
		if o.OK() != ok0 {
			return fmt.Sprintf("zone or clock changes the outcome: %s; %s", op.TZ, brief(o))
		}
		if s.Kind == "utc" {
			if v != base {
				return fmt.Sprintf("zone or clock changes the UTC dump: zone %s, clock %d: %s", op.TZ, op.Clock, diffAt([]byte(base), []byte(v)))
			}
			for _, t := range ts {
				if !strings.HasSuffix(t, "Z") && !strings.HasSuffix(t, "+00:00") {
					return fmt.Sprintf("time not in UTC: %s with -u in zone %s", t, op.TZ)
				}
			}
			continue
		}
		// same text around the times, same instants, written in the local zone
		if a, b := reTime.ReplaceAllString(base, "T"), reTime.ReplaceAllString(v, "T"); a != b {
			return fmt.Sprintf("zone or clock changes more than the times: zone %s, clock %d: %s", op.TZ, op.Clock, diffAt([]byte(a), []byte(b)))
		}
		bt := reTime.FindAllString(base, -1)
		zs := []*time.Location{loadZone(op.TZ)}
		if op.TZ2 != "" {
			zs = append(zs, loadZone(op.TZ2))
		}
		for k := range ts {
			x, err1 := time.Parse(time.RFC3339, bt[k])
			if err1 != nil {
				return fmt.Sprintf("bad time %q", bt[k])
			}
			good := false
			for _, z := range zs {
				if x.In(z).Format(time.RFC3339) == ts[k] {
					good = true
				}
			}
			if !good {
				return fmt.Sprintf("wrong local time: %s is shown as %s in zone %s, expected %s", bt[k], ts[k], op.TZ, x.In(zs[0]).Format(time.RFC3339))
			}
		}
	}
	return ""
}

// ---- C16 ----

func c16gen(r *Rng, thorough bool) *Scn {
	src := Pick(r, "stdin", "stdin", "file", "fetch", "hkp", "github", "lib", "lib", "bytes", "steps")
	g := NewG(r)
	d := &Doc{Pk: g.packets(r.N(3), false)}
	for i, p := range d.Pk {
		if p.Tag == 8 {
			d.Pk[i] = g.pkt(13, false)
		}
	}
	c := &Comp{Alg: Pick(r, 0, 1, 1, 2, 2, 3, 3)}
	g.depth += 2
	c.Pk = g.packets(r.R(1, 5), true)
	if r.P(1, 30) {
		b := NewG(r).big(r.R(2000, Pick(r, 20000, 20000, 200000)))
		c.Pk = append(c.Pk, b.Pk...)
		for _, q := range c.Pk[:len(c.Pk)-1] {
			if q.Hdr == "indet" {
				q.Hdr = "new"
			}
		}
	}
	if r.P(1, 40) {
		g.tags = []int{13, 11, 60}
		c.Pk = g.packets(r.R(50, 300), true)
	}
	g.depth -= 2
	s := &Scn{Kind: "intact", Doc: d, X: map[string]int{"at": len(d.Pk)}}
	p := &Pkt{Tag: 8, Hdr: g.hdr(false), S: Struct{F: []*Field{{N: "compalg", B: Hex{byte(c.Alg)}, Req: true}, {N: "comp", Comp: c}}}}
	if p.Hdr == "partial" {
		p.Part = []int{r.R(0, 9), r.R(0, 9)}
	}
	d.Pk = append(d.Pk, p)
	for _, q := range g.packets(r.N(3), false) {
		if q.Tag == 8 {
			q = g.pkt(13, false)
		}
		d.Pk = append(d.Pk, q)
	}
	if last := d.Pk[len(d.Pk)-1]; last.Tag <= 15 && r.P(1, 8) {
		last.Hdr = "indet"
		last.Part = nil
	}
	if c.Alg != 0 && r.P(1, 2) {
		s.Kind = "damaged"
		n := len(c.Bytes())
		k := r.R(1, 2)
		for i := 0; i < k; i++ {
			off := r.N(n)
			if r.P(1, 3) {
				off = n - 1 - r.N(12)
				if off < 0 {
					off = 0
				}
			}
			if r.P(1, 6) {
				off = min(r.N(4), n-1)
			}
			switch r.N(6) {
			case 0, 1, 2:
				c.Mut = append(c.Mut, Mut{Op: "flip", Off: off, N: r.N(8)})
			case 3:
				c.Mut = append(c.Mut, Mut{Op: "cut", Off: off})
			case 4:
				c.Mut = append(c.Mut, Mut{Op: "del", Off: off, N: 1})
			case 5:
				c.Mut = append(c.Mut, Mut{Op: "set", Off: off, B: r.Bytes(2)})
			}
		}
	}
	arm := needsArmor(src) || (src != "steps" && r.P(1, 3))
	if arm {
		d.Armor = g.armor(d)
	} else if !d.safe() {
		return c16gen(r, thorough)
	}
	st := Stream{Plan: drawPlan(r, len(d.Bytes()))}
	if src == "steps" {
		st.Plan.EOFWith = false
	}
	s.Ops = []*Op{mkOp(src, drawOpts(r), []string{"-j"}, st, frameOf(r))}
	return s
}

// refDecode is the reference for what a format can detect.
func refDecode(alg int, b []byte) ([]byte, error) {
	var rd io.Reader
	var err error
	switch alg {
	case 1:
		rd = flate.NewReader(bytes.NewReader(b))
	case 2:
		if rd, err = zlib.NewReader(bytes.NewReader(b)); err != nil {
			return nil, err
		}
	case 3:
		rd = bzip2.NewReader(bytes.NewReader(b))
	default:
		return b, nil
	}
	d, err := io.ReadAll(io.LimitReader(rd, 1<<28))
	return d, err
}

func packetItems(it *Item) []*Item {
	var l []*Item
	for _, k := range it.Items {
		if _, ok := shapeOfItem(k); ok {
			l = append(l, k)
		}
	}
	return l
}

func itemsJSON(l []*Item) string {
	b, _ := json.Marshal(l)
	return string(b)
}

func c16check(s *Scn, rec *Rec) string {
	d := s.Doc
	at := s.X["at"]
	if at >= len(d.Pk) || d.Pk[at].Tag != 8 || len(d.Pk[at].S.F) != 2 {
		return ""
	}
	c := d.Pk[at].S.F[1].Comp
	op := s.Ops[0]
	if s.Kind == "bomb" {
		o := rec.run(s, op)
		rec.active = true
		rec.add("bomb", c.Alg, c.Bomb)
		if !o.OK() {
			return "too large: data that expands beyond 1 GB makes the run fail: " + brief(o)
		}
		dd, err := parseDump(dumpOf(op, o))
		if err != nil || len(dd.Packets) != len(d.Pk) {
			return "too large: the packets around the oversized one are not all dumped"
		}
		marked := false // something besides the algorithm says so
		for i, it := range dd.Packets[at].Items {
			if i > 0 && (it.Value != "" || !reLen.MatchString(it.Note)) {
				marked = true
			}
		}
		if !marked || len(packetItems(dd.Packets[at])) > 0 {
			return "too large: the packet that expands beyond 1 GB is not marked"
		}
		c2 := clone(s)
		c2.Doc.Pk = append(c2.Doc.Pk[:at], c2.Doc.Pk[at+1:]...)
		b := rec.run(c2, op)
		bd, err := parseDump(dumpOf(op, b))
		if err != nil || itemsJSON(bd.Packets) != itemsJSON(append(append([]*Item(nil), dd.Packets[:at]...), dd.Packets[at+1:]...)) {
			return "too large: the packets around the oversized one are dumped differently"
		}
		return ""
	}
	rec.active = true
	if s.Kind == "large" { // too large to dump the uncompressed packet for comparison
		o := rec.run(s, op)
		rec.add("large", c.Alg)
		if g, w := shapeOfDump(dumpOf(op, o)), shapeString(shapesOf(d.Pk)); !o.OK() || g != w {
			return fmt.Sprintf("intact compressed data rejected: algorithm %d: %s: dump shows %s, the document has %s", c.Alg, brief(o), g, w)
		}
		return ""
	}
	cb := c.Bytes()
	if len(cb) == 0 {
		return "" // no compressed data at all
	}
	plain, err := refDecode(c.Alg, cb)
	o := rec.run(s, op)
	rec.add(s.Kind, op.Src, c.Alg, err != nil, len(plain), kindsOf(d))
	if err != nil {
		if bad := failedOp(op, o); bad != "" {
			return fmt.Sprintf("damaged compressed data accepted: algorithm %d, %v: %s", c.Alg, err, bad)
		}
		return ""
	}
	// the reference: the same packet, not compressed
	c2 := clone(s)
	r := c2.Doc.Pk[at].S.F[1].Comp
	r.Alg, r.Pk, r.Mut, r.Raw = 0, nil, nil, plain
	c2.Doc.Pk[at].S.F[0].B = Hex{0}
	b := rec.run(c2, op)
	if len(plain) == 0 && c.Alg != 0 {
		return "" // an empty packet sequence: nothing to compare with
	}
	if o.OK() != b.OK() {
		return fmt.Sprintf("compressed data dumped differently: algorithm %d: %s; uncompressed: %s", c.Alg, brief(o), brief(b))
	}
	if !o.OK() {
		if s.Kind == "intact" && c.PCut == nil {
			return fmt.Sprintf("intact compressed data rejected: algorithm %d: %s", c.Alg, brief(o))
		}
		return ""
	}
	x, err1 := parseDump(dumpOf(op, o))
	y, err2 := parseDump(dumpOf(op, b))
	if err1 != nil || err2 != nil || len(x.Packets) != len(y.Packets) {
		return "compressed data dumped differently: packets around it"
	}
	for i := range x.Packets {
		if i == at {
			if p, q := itemsJSON(packetItems(x.Packets[i])), itemsJSON(packetItems(y.Packets[i])); p != q {
				return fmt.Sprintf("compressed data dumped differently: algorithm %d: %s", c.Alg, diffAt([]byte(q), []byte(p)))
			}
		} else if p, q := itemsJSON(x.Packets[i:i+1]), itemsJSON(y.Packets[i:i+1]); p != q {
			return fmt.Sprintf("compressed data dumped differently: packet %d beside it: %s", i, diffAt([]byte(q), []byte(p)))
		}
	}
	if s.Kind != "intact" {
		return ""
	}
	// and the same packets without the compressed packet around them
	c3 := clone(s)
	flat := append([]*Pkt(nil), c3.Doc.Pk[:at]...)
	in := c3.Doc.Pk[at].S.F[1].Comp.Pk
	rest := c3.Doc.Pk[at+1:]
	for i, p := range in {
		if p.Tag == 8 {
			return "" // listed, but not expanded inside another one
		}
		if p.Hdr == "indet" && (i < len(in)-1 || len(rest) > 0) {
			p.Hdr = "new"
		}
	}
	c3.Doc.Pk = append(append(flat, in...), rest...)
	if c3.Doc.Armor == nil && !c3.Doc.safe() {
		return ""
	}
	f := rec.run(c3, op)
	z, err3 := parseDump(dumpOf(op, f))
	if !f.OK() || err3 != nil {
		return "compressed data dumped differently: the packets on their own are rejected: " + brief(f)
	}
	var want []*Item
	want = append(want, x.Packets[:at]...)
	want = append(want, packetItems(x.Packets[at])...)
	want = append(want, x.Packets[at+1:]...)
	if p, q := itemsJSON(want), itemsJSON(z.Packets); p != q {
		return "compressed data dumped differently from the packets on their own: " + diffAt([]byte(q), []byte(p))
	}
	return ""
}

func c16heavy(thorough bool) []*Scn {
	uid := func(t string) *Pkt {
		return &Pkt{Tag: 13, Hdr: "new", S: Struct{F: []*Field{{N: "uid", B: Hex(t)}}}}
	}
	mk := func(alg int, c *Comp, kind string) *Scn {
		c.Alg = alg
		p := &Pkt{Tag: 8, Hdr: "new5", S: Struct{F: []*Field{{N: "compalg", B: Hex{byte(alg)}, Req: true}, {N: "comp", Comp: c}}}}
		return &Scn{Kind: kind, X: map[string]int{"at": 1}, Doc: &Doc{Pk: []*Pkt{uid("before"), p, uid("after")}}, Ops: []*Op{mkOp("stdin", "u", []string{"-j"}, Stream{}, "")}}
	}
	lit := func(n int) *Comp {
		return &Comp{Pk: []*Pkt{{Tag: 11, Hdr: "new5", S: Struct{F: []*Field{f1("format", 'b'), f1("namelen", 0), fB("time", []byte{1, 2, 3, 4}, true), {N: "data", Rep: n, RepB: 'x'}}}}, uid("inside")}}
	}
	l := []*Scn{mk(2, &Comp{Bomb: 1200 << 20}, "bomb"), mk(1, lit(70<<20), "intact"), mk(2, lit(20<<20), "intact"), mk(3, lit(3<<20), "intact"), mk(1, lit(980<<20), "large")}
	if thorough {
		l = append(l, mk(1, &Comp{Bomb: 2200 << 20}, "bomb"), mk(2, lit(1023<<20), "large"), mk(1, &Comp{Bomb: 1025 << 20}, "bomb"), mk(0, lit(50<<20), "intact"))
	}
	return l
}

// ---- C18 ----

func c18gen(r *Rng, thorough bool) *Scn {
	for {
		src := Pick(r, "lib", "lib", "bytes", "steps")
		g := NewG(r)
		g.max = Pick(r, 2, 3, 5, 9)
		if r.P(1, 40) {
			g.max = Pick(r, 40, 80, 150)
		}
		d := &Doc{Pk: g.packets(r.R(1, g.max), false)}
		s := &Scn{Kind: Pick(r, "body", "body", "deep", "cut", "fault", "crc"), Doc: d, X: map[string]int{}}
		arm := src != "steps" && r.P(1, 3)
		if s.Kind == "crc" {
			if src == "steps" {
				continue
			}
			arm = true
		}
		n := len(d.Data())
		switch s.Kind {
		case "body":
			i := r.N(len(d.Pk))
			q := d.Pk[i].S.reqLen()
			if q == 0 {
				continue
			}
			s.X["i"], s.X["k"] = i, r.N(q)
			if d.Pk[i].S.cutVerdict(s.X["k"]) != 1 {
				continue
			}
		case "deep":
			i := r.N(len(d.Pk))
			if r.P(1, 2) {
				d.Pk[i] = g.pkt(8, false)
			}
			l := inside(d.Pk[i])
			if len(l) == 0 {
				continue
			}
			j := r.N(len(l))
			q := l[j].reqLen()
			if q < 2 {
				continue
			}
			s.X["i"], s.X["j"], s.X["k"] = i, j, r.R(1, q-1)
			if l[j].cutVerdict(s.X["k"]) != 1 {
				continue
			}
		case "cut", "fault":
			s.X["k"] = r.R(1, n)
		}
		if !d.safe() {
			continue
		}
		opt := drawOpts(r)
		st := Stream{Plan: drawPlan(r, n)}
		if src == "steps" {
			st.Plan.EOFWith = false
		}
		if arm {
			d.Armor = g.armor(d)
			if s.Kind == "crc" {
				d.Armor.NoCRC = false
			}
			if r.P(1, 2) {
				opt += "a"
			}
		}
		s.Ops = []*Op{mkOp(src, opt, nil, st, "")}
		if s.Kind == "fault" {
			kinds := []string{"eio", "reset", "timeout", "closed", "opaque", "eintr", "permission"}
			s.Ops[0].In.Fault = &Fault{Kind: Pick(r, kinds...)}
		}
		return s
	}
}

// inside lists the framed structures nested in a packet.
func inside(p *Pkt) []*Struct {
	var l []*Struct
	var a []*Field
	framedIn(&p.S, false, &l, &a)
	return l
}

func c18check(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	base := clone(s)
	base.Ops[0].In.Fault = nil
	full := rec.run(base, base.Ops[0])
	if !full.OK() {
		return ""
	}
	c := clone(s)
	exact := -1
	k := s.X["k"]
	switch s.Kind {
	case "body":
		i := s.X["i"]
		if i >= len(c.Doc.Pk) || k >= len(c.Doc.Pk[i].S.Bytes()) || c.Doc.Pk[i].S.cutVerdict(k) != 1 {
			return ""
		}
		c.Doc.Pk[i].S.Cut = cp(k)
		exact = i
	case "deep":
		i := s.X["i"]
		if i >= len(c.Doc.Pk) {
			return ""
		}
		l := inside(c.Doc.Pk[i])
		j := s.X["j"]
		if j >= len(l) || k < 1 || k >= len(l[j].Bytes()) || l[j].cutVerdict(k) != 1 {
			return ""
		}
		l[j].Cut = cp(k)
		exact = i
	case "cut", "fault":
		off := 0
		for i, p := range c.Doc.Pk {
			b := p.Bytes()
			if p.Hdr == "indet" {
				return ""
			}
			if k < off+len(b) && (k > off || s.Kind == "fault") {
				exact = i
				break
			}
			off += len(b)
		}
		if k < 1 || (s.Kind == "cut" && exact < 0) {
			return ""
		}
		if s.Kind == "cut" {
			c.Doc.Mut = []Mut{{Op: "cut", Off: k}}
		} else {
			if exact < 0 {
				exact = len(c.Doc.Pk) // the failure comes instead of the end
			}
			c.Ops[0].In.Fault.At = k
			if op.Kind != "steps" {
				exact = -2 // the library reads ahead: any prefix
			}
		}
	case "crc":
		ls := c.Doc.Armor.Lines(c.Doc.Data())
		x := ls[len(ls)-1]
		ch := byte('A')
		if x[1] == ch {
			ch = 'B'
		}
		c.Doc.Armor.Mut = []Mut{{Op: "char", Off: len(ls) - 1, N: 1, B: Hex{ch}}}
		exact = -2
	}
	o := rec.run(c, c.Ops[0])
	rec.active = true
	rec.add(s.Kind, op.Src, kindsOf(s.Doc), exact, len(o.Items))
	if o.Err == "" {
		if s.Kind == "fault" && !o.RFault {
			return ""
		}
		return fmt.Sprintf("failure not reported: %s of packet %d: %d items", s.Kind, exact, len(o.Items))
	}
	if len(o.Items) > len(full.Items) {
		return fmt.Sprintf("partial result is no prefix: %d items, a full run has %d", len(o.Items), len(full.Items))
	}
	for i := range o.Items {
		if o.Items[i] != full.Items[i] {
			return fmt.Sprintf("partial result is no prefix: item %d: %s", i, diffAt([]byte(full.Items[i]), []byte(o.Items[i])))
		}
	}
	if exact >= 0 && len(o.Items) != exact {
		return fmt.Sprintf("partial result incomplete: %s: failure at packet %d, %d items handed back", s.Kind, exact, len(o.Items))
	}
	return ""
}

func init() {
	props["C12"] = &Prop{gen: c12gen, check: c12check, quick: 30000, thorough: 800000, race: true, chunk: 100,
		rule: "2-4 (now and then up to 40) library tasks (parse, step-wise parse, fetches) with their own objects under a drawn schedule of up to 300 switches at statement granularity, some in a fresh process, so that everything is used for the first time; non-trivial if a task was preempted before it ended"}
	props["C13"] = &Prop{gen: c13gen, check: c13check, quick: 6000, thorough: 120000,
		rule: "2-10 (now and then up to 400) operations (commands with any options, failing and interrupted ones, library calls) in one fresh process, each compared with the same operation alone in a fresh process; non-trivial always"}
	props["C14"] = &Prop{gen: c14gen, check: c14check, heavy: c14heavy, quick: 400000, thorough: 10000000,
		rule: "a document whose structures are cut and whose octets are flipped, lost, repeated, inserted or replaced by arbitrary ones, or a hostile server or argument, or a document with one thing n and 4n times in it; non-trivial always: each run is one distinct damaged input"}
	props["C15"] = &Prop{gen: c15gen, check: c15check, quick: 60000, thorough: 1500000,
		rule: "one document dumped under three zones and clock readings, with zone changes and clock jumps in the middle of the run; non-trivial if the dump contains a time"}
	props["C16"] = &Prop{gen: c16gen, check: c16check, quick: 50000, thorough: 1200000, heavy: c16heavy,
		rule: "packets around and inside a compressed packet, intact or with damaged compressed octets, and fixed scenarios with large and oversized expansions; non-trivial always"}
	props["C18"] = &Prop{gen: c18gen, check: c18check, quick: 100000, thorough: 2500000,
		rule: "a packet sequence that fails at a drawn packet (short body, cut stream, read error, wrong checksum), parsed through the library; non-trivial if the oracle makes a claim for that failure"}
}
