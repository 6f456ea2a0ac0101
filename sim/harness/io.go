//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/zzsim/hook"
)

// Plan is how a byte stream is delivered: sizes of successive reads, repeated
// for ever (0 is an empty read, a negative number as much as asked for).
type Plan struct {
	Chunks  []int  `json:"chunks,omitempty"`
	EOFWith bool   `json:"eofwith,omitempty"` // the end is reported with the last bytes
	Delay   int    `json:"delay,omitempty"`   // milliseconds of simulated time per read
	As      string `json:"as,omitempty"`      // what kind of reader the bytes come from
}

// Fault is a failing read: after At bytes the stream yields an error.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	With bool   `json:"with,omitempty"` // the error comes together with the bytes before it
	Once bool   `json:"once,omitempty"` // later reads go on as if nothing had happened
}

// Stream is a source of bytes.
type Stream struct {
	Doc   *Doc   `json:"doc,omitempty"`
	Plan  Plan   `json:"plan"`
	Fault *Fault `json:"fault,omitempty"`
}

// WFault is a failing write: the stream takes At bytes in all.
type WFault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Once bool   `json:"once,omitempty"` // only the first failing write fails
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "simulated: i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// opaqueErr hides everything about itself.
type opaqueErr string

func (e opaqueErr) Error() string { return string(e) }

// cmpErr is an error value that cannot be compared with ==.
type cmpErr struct{ l []string }

func (e cmpErr) Error() string { return "simulated: " + e.l[0] }

var readKinds = []string{"eio", "reset", "timeout", "closed", "wrapeof", "unexpected", "wrapunexpected", "opaque", "patheof", "eintr", "noprogress", "permission", "uncomparable",
	"pipe", "eagain", "eisdir", "toolong", "deadline", "canceled", "eoftext", "netclosed", "fsclosed", "shortbuf"}

func mkErr(kind string) error {
	switch kind {
	case "eio":
		return &fs.PathError{Op: "read", Path: "/sim/in", Err: syscall.EIO}
	case "reset":
		return fmt.Errorf("read tcp: %w", syscall.ECONNRESET)
	case "timeout":
		return timeoutErr{}
	case "closed":
		return io.ErrClosedPipe
	case "wrapeof":
		return fmt.Errorf("simulated: connection lost: %w", io.EOF)
	case "patheof":
		return &fs.PathError{Op: "read", Path: "/sim/in", Err: io.EOF}
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "wrapunexpected":
		return fmt.Errorf("simulated: %w", io.ErrUnexpectedEOF)
	case "opaque":
		return opaqueErr("simulated failure")
	case "eintr":
		return syscall.EINTR
	case "noprogress":
		return io.ErrNoProgress
	case "permission":
		return fs.ErrPermission
	case "pipe":
		return syscall.EPIPE
	case "eagain":
		return syscall.EAGAIN
	case "eisdir":
		return &fs.PathError{Op: "read", Path: "/sim/in", Err: syscall.EISDIR}
	case "toolong":
		return bufio.ErrTooLong
	case "deadline":
		return context.DeadlineExceeded
	case "canceled":
		return context.Canceled
	case "eoftext":
		return opaqueErr("EOF")
	case "netclosed":
		return net.ErrClosed
	case "fsclosed":
		return fs.ErrClosed
	case "shortbuf":
		return io.ErrShortBuffer
	case "notexist":
		return &fs.PathError{Op: "open", Path: "/sim/in", Err: syscall.ENOENT}
	case "enospc":
		return &fs.PathError{Op: "write", Path: "/sim/out", Err: syscall.ENOSPC}
	case "epipe":
		return &fs.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}
	case "short":
		return io.ErrShortWrite
	case "refused":
		return fmt.Errorf("dial tcp: %w", syscall.ECONNREFUSED)
	case "dns":
		return errors.New("lookup: no such host")
	case "tls":
		return errors.New("x509: certificate signed by unknown authority")
	case "uncomparable":
		return cmpErr{[]string{"uncomparable"}}
	}
	return errors.New("simulated: " + kind)
}

// Stats counts what was injected; it is kept by the driver.
type Stats struct {
	Faults map[string]int64 `json:"faults"`
	Reads  int64            `json:"reads"`
	Writes int64            `json:"writes"`
	Reqs   int64            `json:"requests"`
	Ops    int64            `json:"ops"`
	Execs  int64            `json:"fresh_processes"`
	Procs  int64            `json:"program_processes"`
	Switch int64            `json:"task_switches"`
	Steps  uint64           `json:"steps"`
	SimNS  int64            `json:"sim_ns"`
}

func (s *Stats) merge(r *Stats) {
	for k, v := range r.Faults {
		s.Faults[k] += v
	}
	s.Reads += r.Reads
	s.Writes += r.Writes
	s.Reqs += r.Reqs
	s.Ops += r.Ops
	s.Execs += r.Execs
	s.Procs += r.Procs
	s.Switch += r.Switch
	s.Steps += r.Steps
	s.SimNS += r.SimNS
}

var stats = Stats{Faults: map[string]int64{}}

func fired(k string) { stats.Faults[k]++ }

var readerKinds = []string{"bytes", "buffer", "strings", "section", "bufio", "bytereader", "writerto", "seeker", "closer"}

// junk is what another reader of the same stream has taken before.
const junk = "-----BEGIN PGP MESSAGE-----\n\x99\x01"

// as returns the reader in the shape the plan wants: the program may look for
// further methods, but may not read anything else because of them.
func (r *simReader) as() io.Reader {
	b := func() []byte { return append([]byte(junk), r.data...) }
	if r.fault == nil {
		switch r.plan.As {
		case "bytes":
			x := bytes.NewReader(b())
			_, _ = x.Seek(int64(len(junk)), io.SeekStart)
			return x
		case "strings":
			x := strings.NewReader(string(b()))
			_, _ = x.Seek(int64(len(junk)), io.SeekStart)
			return x
		case "buffer":
			x := bytes.NewBuffer(b())
			x.Next(len(junk))
			return x
		case "section":
			return io.NewSectionReader(bytes.NewReader(append(b(), junk...)), int64(len(junk)), int64(len(r.data)))
		case "seeker":
			r.data, r.pos = b(), len(junk)
			return seekReader{r}
		}
	}
	switch r.plan.As {
	case "bufio":
		return bufio.NewReaderSize(r, 64)
	case "bytereader":
		return &byteReader{simReader: r}
	case "writerto":
		return writerTo{r}
	case "closer":
		return io.NopCloser(r)
	}
	return r
}

type seekReader struct{ *simReader }

func (r seekReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 || off > int64(len(r.data)) {
		return int64(r.pos), fs.ErrInvalid
	}
	r.pos = int(off)
	return off, nil
}

type byteReader struct {
	*simReader
	err error // came with a byte
}

func (r *byteReader) Read(p []byte) (int, error) {
	if err := r.err; err != nil {
		r.err = nil
		return 0, err
	}
	return r.simReader.Read(p)
}

func (r *byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			r.err = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type writerTo struct{ *simReader }

func (r writerTo) WriteTo(w io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 512)
	for {
		k, err := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// simReader delivers data according to a plan.
type simReader struct {
	data   []byte
	plan   Plan
	fault  *Fault
	pos    int
	n      int
	faulty bool
	fires  int
	closed *bool
	quiet  bool // used concurrently: no statistics
	zeros  int
}

func newReader(data []byte, plan Plan, fault *Fault) *simReader {
	return &simReader{data: data, plan: plan, fault: fault}
}

func (s *Stream) reader() *simReader {
	var b []byte
	if s.Doc != nil {
		b = s.Doc.Bytes()
	}
	return newReader(b, s.Plan, s.Fault)
}

func (r *simReader) Read(p []byte) (int, error) {
	if !r.quiet {
		stats.Reads++
	}
	if r.closed != nil && *r.closed {
		return 0, os.ErrClosed
	}
	if r.plan.Delay > 0 {
		hook.Advance(time.Duration(r.plan.Delay) * time.Millisecond)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.faulty && !r.fault.Once {
		return 0, mkErr(r.fault.Kind)
	}
	n := len(p)
	if len(r.plan.Chunks) > 0 {
		c := r.plan.Chunks[r.n%len(r.plan.Chunks)]
		r.n++
		if c == 0 {
			r.zeros++
			if r.zeros < 5 {
				if !r.quiet {
					fired("empty read")
				}
				return 0, nil
			}
			c = 1
		}
		r.zeros = 0
		if c > 0 && c < n {
			n = c
		}
	}
	rest := len(r.data) - r.pos
	if r.fault != nil && !r.faulty {
		left := r.fault.At - r.pos
		if left <= 0 {
			return 0, r.fire()
		}
		if left < rest {
			rest = left
		}
		if n >= left {
			n = left
			if n > rest {
				n = rest
			}
			copy(p, r.data[r.pos:r.pos+n])
			r.pos += n
			if r.fault.With && r.pos == r.fault.At {
				return n, r.fire()
			}
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
	}
	if rest == 0 {
		return 0, io.EOF
	}
	if n > rest {
		n = rest
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.data) && r.plan.EOFWith && r.fault == nil {
		return n, io.EOF
	}
	return n, nil
}

func (r *simReader) fire() error {
	r.faulty = true
	r.fires++
	if !r.quiet {
		fired("read " + r.fault.Kind)
	}
	return mkErr(r.fault.Kind)
}

// simWriter takes bytes until its fault.
type simWriter struct {
	buf   []byte
	fault *WFault
	fires int
}

func (w *simWriter) Write(p []byte) (int, error) {
	stats.Writes++
	if w.fault == nil || (w.fires > 0 && w.fault.Once) {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	left := w.fault.At - len(w.buf)
	if left < 0 || w.fires > 0 {
		left = 0
	}
	if len(p) <= left {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	w.buf = append(w.buf, p[:left]...)
	w.fires++
	fired("write " + w.fault.Kind)
	if w.fault.Kind == "silent" { // a short count is all the caller gets
		return left, nil
	}
	return left, mkErr(w.fault.Kind)
}

// simFile is an open file of the simulated file system.
type simFile struct {
	*simReader
	closed bool
	h      *handles
}

func (f *simFile) Close() error {
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	f.h.open--
	return nil
}

// handles counts what is open.
type handles struct{ open, opened int }
