//go:build go1.21

// Package hook is the seam between the instrumented repository code and the
// simulator. It is compiled into simulation builds only (through an overlay)
// and has no counterpart in the repository.
package hook

import (
	"fmt"
	"io"
	"os"
	"sort"
	"sync/atomic"
	"time"
)

// Free is set by the build when the repository itself starts goroutines or
// uses channels; tasks are then never switched at yield points.
var Free bool

// Off lists the rewrites this build does without.
var Off string

// StepLimit is the panic value used to stop a run that exceeds its budget.
type StepLimit struct{ Steps uint64 }

func (s StepLimit) Error() string { return fmt.Sprintf("simulated step limit %d exceeded", s.Steps) }

var (
	steps    uint64
	trip     uint64 = 1 << 62
	limit    uint64 = 1 << 62
	limitHit bool
	freeN    uint64
	atSteps  []At
)

// At is an action of the simulator that happens at a given step.
type At struct {
	Step uint64
	Fn   func()
}

// Y is called before every statement of the repository.
//
//go:norace
func Y() {
	if Free {
		if atomic.AddUint64(&freeN, 1) >= limit {
			panic(StepLimit{limit})
		}
		return
	}
	steps++
	if steps >= trip {
		slow()
	}
}

// HotVars is the number of package-level variables the repository changes
// outside of init functions, those behind the flags of the command aside; set
// by the build.
var HotVars int

var (
	hot     uint64
	hotLast uint64
	hotSeen [128]uint64 // a set of hashes
)

// H stands in for Y before a statement that touches one of them.
//
//go:norace
func H(site uint64) {
	if !Free {
		hot++
		hotMark(site)
		if len(hotPre) > 0 && hotPre[0].Step <= hot {
			p := hotPre[0]
			hotPre = hotPre[1:]
			switchTo(p.To)
		}
	}
	Y()
}

//go:norace
func hotMark(site uint64) {
	p := (hotLast<<20 | site) * 0x9e3779b97f4a7c15 >> 51
	hotSeen[p>>6] |= 1 << (p & 63)
	hotLast = site
}

// HotSig identifies the hot points passed since the last call: how many, and
// which ones followed which.
//
//go:norace
func HotSig() (n, sig uint64) {
	n = hot
	if n > 0 {
		hotMark(0)
	}
	for i, w := range hotSeen {
		sig ^= w * (2*uint64(i) + 1)
		sig *= 0x9e3779b97f4a7c15
		sig ^= sig >> 29
		hotSeen[i] = 0
	}
	hot, hotLast = 0, 0
	return
}

//go:norace
func slow() {
	if steps >= limit {
		l := limit
		limitHit = true
		limit += 1 << 20
		setTrip()
		panic(StepLimit{l})
	}
	for len(atSteps) > 0 && atSteps[0].Step <= steps {
		a := atSteps[0]
		atSteps = atSteps[1:]
		a.Fn()
	}
	if len(preempts) > 0 && preempts[0].Step <= steps {
		p := preempts[0]
		preempts = preempts[1:]
		setTrip()
		switchTo(p.To)
	}
	setTrip()
}

//go:norace
func setTrip() {
	trip = limit
	if len(preempts) > 0 && preempts[0].Step < trip {
		trip = preempts[0].Step
	}
	if len(atSteps) > 0 && atSteps[0].Step < trip {
		trip = atSteps[0].Step
	}
}

// Reset starts a new run with a step budget.
func Reset(max uint64, at []At) {
	steps, limit, limitHit, freeN = 0, max, false, 0
	preempts, hotPre = nil, nil
	atSteps = append([]At(nil), at...)
	sort.SliceStable(atSteps, func(i, j int) bool { return atSteps[i].Step < atSteps[j].Step })
	setTrip()
}

// Steps returns the number of steps of the run so far.
//
//go:norace
func Steps() uint64 {
	if Free {
		return atomic.LoadUint64(&freeN)
	}
	return steps
}

// LimitHit tells whether the run exceeded its budget.
func LimitHit() bool { return limitHit || (Free && atomic.LoadUint64(&freeN) >= limit) }

// ---- clock ----

var (
	nowNS   int64
	wallOff int64 // what clock jumps have added
	NowUsed int64
)

// SetClock sets the simulated wall clock.
func SetClock(unixNano int64) { nowNS, wallOff, NowUsed = unixNano, 0, 0 }

// Jump moves the wall clock without time passing.
//
//go:norace
func Jump(d time.Duration) { wallOff += int64(d) }

// Advance lets simulated time pass.
//
//go:norace
func Advance(d time.Duration) { nowNS += int64(d) }

// Elapsed returns the simulated time without clock jumps.
//
//go:norace
func Elapsed() int64 { return nowNS }

// Now is the simulated time.Now.
//
//go:norace
func Now() time.Time {
	NowUsed++
	nowNS += 1000
	return time.Unix(0, nowNS+wallOff)
}

// Since is the simulated time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is the simulated time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is the simulated time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if d > 0 {
		nowNS += int64(d)
	}
	Y()
	Gosched()
}

// ---- map order ----

// MapSeed decides the iteration order of maps in the repository.
var MapSeed uint64

// MapKeys returns the keys of m in the order of this run.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type kv struct {
		k K
		s string
	}
	l := make([]kv, 0, len(m))
	for k := range m {
		l = append(l, kv{k, fmt.Sprintf("%v", k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	if s := MapSeed; s != 0 {
		for i := len(l) - 1; i > 0; i-- {
			s = s*6364136223846793005 + 1442695040888963407
			j := int((s >> 33) % uint64(i+1))
			l[i], l[j] = l[j], l[i]
		}
	}
	ks := make([]K, len(l))
	for i := range l {
		ks[i] = l[i].k
	}
	return ks
}

// ---- files ----

// FileImpl is what the simulated file system hands out.
type FileImpl interface {
	io.Reader
	io.Closer
}

// OpenFn opens a simulated file.
var OpenFn func(name string) (FileImpl, int64, error)

// File stands in for os.File.
type File struct {
	name string
	impl FileImpl
	size int64
}

// Open stands in for os.Open.
func Open(name string) (*File, error) {
	if OpenFn == nil {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	f, n, err := OpenFn(name)
	if err != nil {
		return nil, err
	}
	return &File{name, f, n}, nil
}

// OpenFile stands in for os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) { return Open(name) }

// ReadFile stands in for os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// Stat stands in for os.Stat.
func Stat(name string) (os.FileInfo, error) {
	f, err := Open(name)
	if err != nil {
		if pe, ok := err.(*os.PathError); ok {
			pe.Op = "stat"
		}
		return nil, err
	}
	defer f.Close()
	return f.Stat()
}

func (f *File) Read(p []byte) (int, error) { return f.impl.Read(p) }

// Close closes the file.
func (f *File) Close() error { return f.impl.Close() }

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) { return fileInfo{f}, nil }

// Seek supports what io.Seeker promises when the simulated file does.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if s, ok := f.impl.(io.Seeker); ok {
		return s.Seek(off, whence)
	}
	return 0, &os.PathError{Op: "seek", Path: f.name, Err: os.ErrInvalid}
}

// ReadAt supports what io.ReaderAt promises when the simulated file does.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if s, ok := f.impl.(io.ReaderAt); ok {
		return s.ReadAt(p, off)
	}
	return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrInvalid}
}

type fileInfo struct{ f *File }

func (i fileInfo) Name() string       { return i.f.name }
func (i fileInfo) Size() int64        { return i.f.size }
func (i fileInfo) Mode() os.FileMode  { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() interface{}   { return nil }
