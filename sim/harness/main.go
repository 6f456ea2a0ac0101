//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	_ "time/tzdata" // zones do not depend on the machine

	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

type sample struct{ name, data string }

const (
	nWorkers  = 8
	raceBase  = 1_000_000_000 // run numbers of the race-detector part
	stallTime = 120 * time.Second
)

// job is a stretch of runs that one process does: From, From+Stride, ...
type job struct {
	Prop   string `json:"prop"`
	Tier   string `json:"tier"`
	Seed   uint64 `json:"seed"`
	From   int    `json:"from"`
	To     int    `json:"to"`
	Stride int    `json:"stride"`
	Heavy  bool   `json:"heavy"`
	Race   bool   `json:"race"`
	Dir    string `json:"dir"`
	Name   string `json:"name"`
	End    int64  `json:"end"` // wall clock, unix ms
}

type found struct {
	Run   int    `json:"run"`
	Heavy int    `json:"heavy"` // 1-based index of a fixed scenario, 0 if none
	Viol  string `json:"viol"`
	Scn   *Scn   `json:"scn,omitempty"`
	From  int    `json:"from"` // first run of the process
}

type report struct {
	Runs    int      `json:"runs"`
	Active  int      `json:"active"`
	Digest  uint64   `json:"digest"`
	Recheck int      `json:"recheck"`
	Differ  []int    `json:"differ,omitempty"`
	Known   []string `json:"known,omitempty"`
	Found   *found   `json:"found,omitempty"`
	Samples []string `json:"samples,omitempty"`
	Stats   Stats    `json:"stats"`
	Cut     bool     `json:"cut"` // stopped by the clock
	HeavyN  int      `json:"heavy"`
	SlowS   float64  `json:"slow_s"` // the slowest run
	SlowRun int      `json:"slow_run"`
	WallS   float64  `json:"wall_s"`
}

func genScn(p *Prop, id string, seed uint64, i int, thorough bool) *Scn {
	curSeed, curRun = seed, i
	s := p.gen(NewRng(seed, hash64([]byte(id)), uint64(i)), thorough)
	s.Prop, s.Seed, s.Run = id, seed, i
	return s
}

// evaluate runs the check of one scenario.
func evaluate(p *Prop, s *Scn) (v string, rec *Rec) {
	rec = &Rec{}
	defer func() {
		if x := recover(); x != nil {
			v = fmt.Sprintf("outcome makes no sense: the check itself fails on it: %v", x)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
			}
		}
	}()
	v = p.check(s, rec)
	return v, rec
}

func recHash(rec *Rec) (sig, log uint64) {
	return hash64([]byte(strings.Join(rec.sig, "|"))), hash64([]byte(strings.Join(rec.log, "\n")))
}

// ---- worker ----

func workerMain(arg string) {
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[j.Prop]
	setLimits(p, j.Race)
	scratch = j.Dir
	thorough := j.Tier == "thorough"
	rep := &report{}
	start := time.Now()
	curF, err := os.OpenFile(filepath.Join(j.Dir, "cur."+j.Name), os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	mark := func(i int) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(int64(i)))
		_, _ = curF.WriteAt(b[:], 0)
	}
	sigs, logs := map[uint64]bool{}, map[uint64]bool{}
	finish := func() {
		rep.Stats = stats
		rep.WallS = time.Since(start).Seconds()
		dump := func(name string, m map[uint64]bool) {
			b := make([]byte, 0, 8*len(m))
			for k := range m {
				b = binary.LittleEndian.AppendUint64(b, k)
			}
			_ = os.WriteFile(filepath.Join(j.Dir, name+"."+j.Name), b, 0o644)
		}
		dump("sig", sigs)
		dump("log", logs)
		b, err := json.Marshal(rep)
		if err == nil {
			err = os.WriteFile(filepath.Join(j.Dir, "rep."+j.Name), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	note := func(rec *Rec, i int) {
		rep.Runs++
		a, l := recHash(rec)
		if rec.active {
			rep.Active++
			sigs[a] = true
		}
		logs[l] = true
		rep.Digest += hash64(binary.LittleEndian.AppendUint64(nil, l^uint64(int64(i))*0x9e3779b97f4a7c15))
	}
	if j.Heavy && p.heavy != nil {
		for k, s := range p.heavy(thorough) {
			mark(-1 - k)
			s.Prop, s.Seed, s.Run = j.Prop, j.Seed, -1-k
			v, rec := evaluate(p, s)
			note(rec, -1-k)
			rep.HeavyN++
			if rec.known != "" {
				rep.Known = append(rep.Known, rec.known)
				if !listed(j.Prop, rec.known) {
					v = "finding that is not listed: " + rec.known
				}
			}
			if v != "" {
				rep.Found = &found{Run: -1 - k, Heavy: k + 1, Viol: v}
				finish()
			}
		}
	}
	n := 0
	for i := j.From; i < j.To; i += j.Stride {
		mark(i)
		if n++; n%32 == 0 {
			if time.Now().UnixMilli() > j.End {
				rep.Cut = true
				break
			}
			if b, err := os.ReadFile(filepath.Join(j.Dir, "min")); err == nil {
				if m, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil && i > m {
					break
				}
			}
		}
		began := time.Now()
		s := genScn(p, j.Prop, j.Seed, i, thorough)
		v, rec := evaluate(p, s)
		if d := time.Since(began).Seconds(); d > rep.SlowS {
			rep.SlowS, rep.SlowRun = d, i
		}
		if v != "" {
			rep.Found = &found{Run: i, Viol: v, Scn: s, From: j.From}
			break
		}
		note(rec, i)
		if rec.active && len(rep.Samples) < 2 && j.From < nWorkers {
			if b, err := json.Marshal(s); err == nil && len(b) < 3000 {
				rep.Samples = append(rep.Samples, string(b))
			}
		}
		if i%97 == 0 { // the same scenario once more: same history?
			s2 := genScn(p, j.Prop, j.Seed, i, thorough)
			_, rec2 := evaluate(p, s2)
			rep.Recheck++
			_, a := recHash(rec)
			_, b := recHash(rec2)
			if a != b {
				rep.Differ = append(rep.Differ, i)
			}
		}
	}
	finish()
}

func setLimits(p *Prop, race bool) {
	if race || hook.RaceBuild {
		return
	}
	lim := uint64(6 << 30)
	if p.heavy != nil {
		lim = 20 << 30
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
}

// ---- known findings ----

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known returns the lines of the known-findings file for a property, by id.
func known(prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	pre := "KNOWN-FINDING: property=" + prop + " id="
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, pre) {
			f := strings.SplitN(strings.TrimPrefix(l, pre), " ", 2)
			m[f[0]] = l
		}
	}
	return m
}

func listed(prop, id string) bool { _, ok := known(prop)[id]; return ok }

// ---- parent ----

type parent struct {
	prop  string
	p     *Prop
	tier  string
	seed  uint64
	dir   string
	end   time.Time
	mu    sync.Mutex
	reps  []*report
	finds []*found
	fatal []string
	sigs  map[uint64]bool
	logs  map[uint64]bool
}

func (m *parent) fail(f string, a ...interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.fatal = append(m.fatal, fmt.Sprintf(f, a...))
}

func (m *parent) add(f *found) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.finds = append(m.finds, f)
	min := f.Run
	for _, g := range m.finds {
		if g.Run < min {
			min = g.Run
		}
	}
	tmp := filepath.Join(m.dir, "min.tmp")
	if os.WriteFile(tmp, []byte(strconv.Itoa(min)), 0o644) == nil {
		_ = os.Rename(tmp, filepath.Join(m.dir, "min"))
	}
}

func (m *parent) stopped(from int) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, f := range m.finds {
		if f.Run < from {
			return true
		}
	}
	return len(m.fatal) > 0 || time.Now().After(m.end)
}

// runJob runs one worker process and looks after it.
func (m *parent) runJob(exe string, j job) {
	b, _ := json.Marshal(j)
	cmd := exec.Command(exe, "--worker", string(b))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if j.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	}
	var errb tail
	cmd.Stdout, cmd.Stderr = &errb, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		m.fail("start: %v", err)
		return
	}
	cur := func() int {
		b, err := os.ReadFile(filepath.Join(m.dir, "cur."+j.Name))
		if err != nil || len(b) < 8 {
			return j.From
		}
		return int(int64(binary.LittleEndian.Uint64(b)))
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since, hung := cur(), time.Now(), false
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			if c := cur(); c != last {
				last, since = c, time.Now()
			} else if lim := stallTime * time.Duration(1+2*b2i(c < 0)); time.Since(since) > lim {
				hung = true
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	if rb, rerr := os.ReadFile(filepath.Join(m.dir, "rep."+j.Name)); err == nil && rerr == nil {
		rep := &report{}
		if json.Unmarshal(rb, rep) == nil {
			if rep.SlowS > 8 {
				fmt.Fprintf(os.Stderr, "slow: run %d took %.1f s\n", rep.SlowRun, rep.SlowS)
			}
			m.mu.Lock()
			m.reps = append(m.reps, rep)
			m.mu.Unlock()
			m.merge("sig."+j.Name, m.sigs)
			m.merge("log."+j.Name, m.logs)
			if rep.Found != nil {
				if rep.Found.Heavy > 0 {
					rep.Found.Scn = nil
				}
				m.add(rep.Found)
			}
			for _, f := range []string{"rep.", "cur.", "sig.", "log."} {
				_ = os.Remove(filepath.Join(m.dir, f+j.Name))
			}
			return
		}
	}
	// the process died or was killed: the run it was in is to blame
	at := cur()
	what := fmt.Sprintf("the process died: %v: %s", err, errb.head())
	if hung {
		what = fmt.Sprintf("the run does not end: no result after %v", stallTime)
	}
	f := &found{Run: at, Viol: what, From: j.From}
	if at < 0 {
		f.Heavy = -at
	}
	m.add(f)
}

func (m *parent) merge(name string, to map[uint64]bool) {
	b, _ := os.ReadFile(filepath.Join(m.dir, name))
	m.mu.Lock()
	defer m.mu.Unlock()
	for ; len(b) >= 8; b = b[8:] {
		to[binary.LittleEndian.Uint64(b)] = true
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// tail keeps the start of what a child prints.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) head() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := strings.TrimSpace(string(t.b))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func checkMain(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	n, budget := p.quick, 200*time.Second
	if tier == "thorough" {
		n, budget = p.thorough, 90*time.Minute
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v > 0 {
		n = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	base := os.Getenv("VERIF_SCRATCH")
	dir, err := os.MkdirTemp(base, "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	m := &parent{prop: id, p: p, tier: tier, seed: seed, dir: dir, end: start.Add(budget), sigs: map[uint64]bool{}, logs: map[uint64]bool{}}
	exe, _ := os.Executable()
	m.phase(exe, 0, n, p.chunk, false)
	raceRuns := 0
	raceExe := filepath.Join(filepath.Dir(exe), "sim-race")
	if p.race && len(m.finds) == 0 && len(m.fatal) == 0 {
		if _, err := os.Stat(raceExe); err == nil {
			raceRuns = p.quick / 15
			if tier == "thorough" {
				raceRuns = p.thorough / 30
			}
			before := m.runs()
			m.phase(raceExe, raceBase, raceRuns, 25, true)
			raceRuns = m.runs() - before
		}
	}
	wall := time.Since(start).Seconds()
	for _, f := range m.fatal {
		fmt.Fprintln(os.Stderr, "check failed:", f)
	}
	for k, l := range known(id) {
		for _, r := range m.reps {
			for _, x := range r.Known {
				if x == k {
					fmt.Println(l)
				}
			}
		}
	}
	code := 0
	if len(m.fatal) > 0 {
		code = 2
	}
	if len(m.finds) > 0 {
		code = m.settle(exe, raceExe)
	}
	m.evidence(start, wall, raceRuns, n, code)
	return code
}

func (m *parent) runs() int {
	n := 0
	for _, r := range m.reps {
		n += r.Runs
	}
	return n
}

// phase distributes n runs over the workers, chunk runs per process (0: all).
func (m *parent) phase(exe string, base, n, chunk int, race bool) {
	if chunk == 0 {
		chunk = (n + nWorkers - 1) / nWorkers
	}
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k, from := 0, base+w; from < base+n; k, from = k+1, from+chunk*nWorkers {
				if m.stopped(from) {
					return
				}
				to := from + chunk*nWorkers
				if to > base+n {
					to = base + n
				}
				m.runJob(exe, job{Prop: m.prop, Tier: m.tier, Seed: m.seed, From: from, To: to, Stride: nWorkers, Heavy: w == 0 && k == 0 && !race, Race: race, Dir: m.dir, Name: fmt.Sprintf("%d-%d-%v", w, k, race), End: m.end.UnixMilli()})
			}
		}(w)
	}
	wg.Wait()
}

// Replay is what a replay file holds.
type Replay struct {
	Scn      *Scn     `json:"scenario,omitempty"`
	Tier     string   `json:"tier"`
	Race     bool     `json:"race,omitempty"`
	Heavy    int      `json:"fixed_scenario,omitempty"`
	Prop     string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	From     int      `json:"first_run,omitempty"` // history replays: the runs From, From+8, ..., Run in one process
	History  bool     `json:"history,omitempty"`
	Viol     string   `json:"violation"`
	Crash    bool     `json:"crash,omitempty"` // the violation is the end (or no end) of the process
	Original string   `json:"violation_before_minimising,omitempty"`
	Evals    int      `json:"minimising_steps,omitempty"`
	Log      []string `json:"event_log,omitempty"`
	Fresh    string   `json:"replays,omitempty"`
}

// settle confirms the first violation in fresh processes, makes it smaller
// and writes the replay file.
func (m *parent) settle(exe, raceExe string) int {
	sort.Slice(m.finds, func(i, j int) bool { return m.finds[i].Run < m.finds[j].Run })
	f := m.finds[0]
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", m.prop, m.seed, f.Run))
	r := &Replay{Prop: m.prop, Tier: m.tier, Seed: m.seed, Run: f.Run, Heavy: f.Heavy, Viol: f.Viol, From: f.From, Race: f.Run >= raceBase}
	if r.Race {
		exe = raceExe
	}
	if f.Scn == nil && f.Heavy == 0 {
		f.Scn = genScn(m.p, m.prop, m.seed, f.Run, m.tier == "thorough")
	}
	r.Scn = f.Scn
	write := func(r *Replay) {
		b, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	write(r)
	tmp := filepath.Join(m.dir, "shrunk.json")
	v, crashed := m.child(exe, "--replay-raw", path, 3*stallTime)
	if v == "" { // depends on what the process did before
		r.History = true
		write(r)
		if v, crashed = m.child(exe, "--replay-raw", path, 20*time.Minute); v == "" {
			r.History = false
			ok := 0
			for i := 0; i < 20; i++ {
				if w, _ := m.child(exe, "--replay-raw", path, stallTime); w != "" {
					ok++
					v = w
				}
			}
			if ok == 0 {
				fmt.Fprintf(os.Stderr, "not reproducible: run %d: %s\n", f.Run, f.Viol)
				return 2
			}
			r.Fresh = fmt.Sprintf("reproduced in %d of 20 fresh processes: something the simulator does not control takes part", ok)
		} else { // the shortest history that does it
			for k := 1; k < (f.Run-f.From)/nWorkers; k *= 2 {
				c := *r
				c.From = f.Run - k*nWorkers
				write(&c)
				if w, cr := m.child(exe, "--replay-raw", path, stallTime); w != "" {
					*r, v, crashed = c, w, cr
					break
				}
			}
		}
		r.Viol, r.Crash = v, crashed
		write(r)
		m.announce(path, v)
		return 1
	}
	r.Viol, r.Crash = v, crashed
	if f.Heavy == 0 {
		if !crashed {
			_ = os.Remove(tmp)
			m.child(exe, "--shrink", path+"\x00"+tmp, 2*time.Minute)
			if b, err := os.ReadFile(tmp); err == nil {
				c := &Replay{}
				if json.Unmarshal(b, c) == nil {
					write(c)
					if w, cr := m.child(exe, "--replay-raw", path, stallTime); w != "" && !cr && class(w) == class(v) {
						c.Viol = w
						*r = *c
						v = w
					}
				}
			}
		} else {
			eval := func(s *Scn) string {
				c := *r
				c.Scn = s
				b, _ := json.Marshal(&c)
				_ = os.WriteFile(tmp, b, 0o644)
				w, cr := m.child(exe, "--replay-raw", tmp, 20*time.Second)
				if !cr {
					return ""
				}
				return w
			}
			if !strings.Contains(v, "does not end") {
				s, w, k := shrink(r.Scn, v, eval, 120, time.Minute)
				r.Original, r.Scn, r.Viol, r.Evals = v, s, w, k
			}
		}
	}
	write(r)
	m.announce(path, r.Viol)
	return 1
}

func (m *parent) announce(path, v string) {
	fmt.Printf("violated: %s\n", v)
	fmt.Printf("VIOLATION property=%s replay=%s\n", m.prop, path)
}

// child runs a mode of the simulator in a fresh process. It returns the
// violation it reports, and whether the process itself fell over.
func (m *parent) child(exe, mode, arg string, lim time.Duration) (string, bool) {
	cmd := exec.Command(exe, append([]string{mode}, strings.Split(arg, "\x00")...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_SCRATCH="+m.dir, "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	var out bytes.Buffer
	var errb tail
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return "", false
	}
	t := time.AfterFunc(lim, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	if !t.Stop() {
		return fmt.Sprintf("the run does not end: no result after %v", lim), true
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() != 1 {
		return fmt.Sprintf("the process died: %v: %s", err, errb.head()), true
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "violated: ") {
			return strings.TrimPrefix(l, "violated: "), false
		}
	}
	return "", false
}

// replayMain replays a file in this process: exit 1 if it shows a violation.
func replayMain(path string, raw bool) int {
	b, err := os.ReadFile(path)
	r := &Replay{}
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil || props[r.Prop] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file:", err)
		return 0
	}
	p := props[r.Prop]
	setLimits(p, r.Race)
	if scratch = os.Getenv("VERIF_SCRATCH"); scratch == "" {
		scratch = os.TempDir()
	}
	thorough := r.Tier == "thorough"
	var v string
	var rec *Rec
	switch {
	case r.Heavy > 0:
		s := p.heavy(thorough)[r.Heavy-1]
		v, rec = evaluate(p, s)
		if rec.known != "" && !listed(r.Prop, rec.known) {
			v = "finding that is not listed: " + rec.known
		}
	case r.History:
		for i := r.From; i <= r.Run; i += nWorkers {
			v, rec = evaluate(p, genScn(p, r.Prop, r.Seed, i, thorough))
		}
	default:
		curSeed, curRun = r.Seed, r.Run
		v, rec = evaluate(p, r.Scn)
	}
	if v == "" {
		if !raw {
			fmt.Println("not reproduced: the property holds for this scenario")
		}
		return 0
	}
	fmt.Println("violated: " + strings.ReplaceAll(v, "\n", " "))
	if !raw {
		if v == r.Viol {
			fmt.Println("reproduced exactly")
		}
		for _, l := range rec.log {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	}
	return 1
}

func shrinkMain(in, out string) int {
	b, err := os.ReadFile(in)
	r := &Replay{}
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil || r.Scn == nil {
		return 0
	}
	p := props[r.Prop]
	setLimits(p, r.Race)
	scratch = os.Getenv("VERIF_SCRATCH")
	curSeed, curRun = r.Seed, r.Run
	v, _ := evaluate(p, r.Scn)
	if v == "" {
		return 0
	}
	var log []string
	eval := func(s *Scn) string {
		w, rec := evaluate(p, s)
		if strings.HasPrefix(w, "outcome makes no sense") {
			return ""
		}
		log = rec.log
		return w
	}
	s, w, n := shrink(r.Scn, v, eval, 400, 25*time.Second)
	r.Original, r.Scn, r.Viol, r.Evals = v, s, w, n
	eval(s)
	r.Log = log
	b, _ = json.MarshalIndent(r, "", " ")
	if os.WriteFile(out, append(b, '\n'), 0o644) != nil {
		return 0
	}
	return 0
}

func (m *parent) evidence(start time.Time, wall float64, raceRuns, planned, code int) {
	tot := &report{Stats: Stats{Faults: map[string]int64{}}}
	var samples []json.RawMessage
	var differ []int
	heavy, cut := 0, false
	for _, r := range m.reps {
		tot.Runs += r.Runs
		tot.Active += r.Active
		tot.Digest += r.Digest
		tot.Recheck += r.Recheck
		heavy += r.HeavyN
		cut = cut || r.Cut
		differ = append(differ, r.Differ...)
		for _, s := range r.Samples {
			if len(samples) < 3 {
				samples = append(samples, json.RawMessage(s))
			}
		}
		tot.Stats.merge(&r.Stats)
	}
	if samples == nil {
		s, _ := json.Marshal(genScn(m.p, m.prop, m.seed, 0, m.tier == "thorough"))
		samples = []json.RawMessage{s}
	}
	var injected int64
	for _, v := range tot.Stats.Faults {
		injected += v
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	cov := map[string]interface{}{
		"evaluations":                tot.Runs,
		"distinct_nontrivial":        len(m.sigs),
		"rule":                       m.p.rule + "; distinct by what the scenario consists of and what it led to",
		"samples":                    samples,
		"nontrivial_runs":            tot.Active,
		"planned_runs":               planned,
		"fixed_scenarios":            heavy,
		"race_detector_runs":         raceRuns,
		"stopped_by_clock":           cut,
		"runs_per_hour":              int(float64(tot.Runs) / wall * 3600),
		"seeds_per_hour":             int(float64(tot.Runs-heavy) / wall * 3600),
		"simulated_seconds":          tot.Stats.SimNS / 1e9,
		"faults_injected":            tot.Stats.Faults,
		"faults_injected_total":      injected,
		"distinct_event_logs":        len(m.logs),
		"distinct_event_logs_rule":   "hash of every operation's exit status, outputs, error, result, step count, requests, handles and, for tasks, the sequence of task switches",
		"history_digest":             fmt.Sprintf("%016x", tot.Digest),
		"determinism_rechecks":       tot.Recheck,
		"determinism_differences":    len(differ),
		"operations":                 tot.Stats.Ops,
		"fresh_processes":            tot.Stats.Execs,
		"program_processes":          tot.Stats.Procs,
		"reads":                      tot.Stats.Reads,
		"writes":                     tot.Stats.Writes,
		"http_requests":              tot.Stats.Reqs,
		"task_switches":              tot.Stats.Switch,
		"repository_statements_run":  tot.Stats.Steps,
		"workers":                    nWorkers,
		"real_components":            []string{"all packages of the repository", "cobra", "gocli", "net/http client and fetch above the transport", "x/crypto armor and packet readers", "compress/*", "encoding/json"},
		"stubbed_components":         []string{"standard streams", "os file access of the repository", "clipboard", "http.RoundTripper (answers read by net/http's own response parser)", "clock, time zone", "map iteration order in the repository", "package sync in the repository"},
		"instrumentation_left_out":   hook.Off,
		"tasks_free_running":         hook.Free,
		"unconfirmed_or_lost_checks": len(m.fatal),
	}
	ev := map[string]interface{}{
		"property": m.prop, "tier": m.tier, "seed": m.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{"the reference model (document builder, reference decoders, fresh-process or undisturbed runs) is right", "behaviour of the Go runtime and of the modules the repository depends on", "exploration: nothing is claimed for scenarios that were not drawn"},
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, m.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	fmt.Printf("%s %s seed %d: %d runs (%d non-trivial, %d distinct), %d faults, %d operations, %.1f s, digest %016x\n", m.prop, m.tier, m.seed, tot.Runs, tot.Active, len(m.sigs), injected, tot.Stats.Ops, wall, tot.Digest)
	if len(differ) > 0 {
		fmt.Printf("note: %d of %d repeated runs had another event log (first: run %d)\n", len(differ), tot.Recheck, differ[0])
	}
}

// smoke runs n scenarios in this process (for development and profiling).
func smoke(id string, n int) {
	p := props[id]
	if pf := os.Getenv("SIMPROF"); pf != "" {
		f, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t := time.Now()
	bad := 0
	seen := map[string]int{}
	for i := 0; i < n; i++ {
		s := genScn(p, id, 1, i, false)
		if v, _ := evaluate(p, s); v != "" {
			bad++
			seen[class(v)]++
			if bad <= 3 {
				b, _ := json.Marshal(s)
				if len(b) > 1500 {
					b = b[:1500]
				}
				fmt.Println(i, v, "\n   ", string(b))
			}
			if os.Getenv("VERIF_STOP") != "" {
				break
			}
		}
	}
	fmt.Println(id, "runs", n, "bad", bad, seen, time.Since(t))
}

func main() {
	usage := "usage: sim check PROPERTY TIER | replay FILE | smoke PROPERTY N"
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	switch os.Args[1] {
	case "--seq":
		seqMain()
	case "--tasks":
		tasksMain()
	case "--worker":
		workerMain(arg(2))
	case "--replay-raw":
		os.Exit(replayMain(arg(2), true))
	case "--shrink":
		os.Exit(shrinkMain(arg(2), arg(3)))
	case "replay":
		os.Exit(replayMain(arg(2), false))
	case "check":
		os.Exit(checkMain(arg(2), arg(3)))
	case "smoke":
		n, _ := strconv.Atoi(arg(3))
		smoke(arg(2), n)
	default:
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
}
