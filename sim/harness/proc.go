//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Process-level scenarios: the shipped program itself, with descriptors that
// fail the way a kernel makes them fail. They reach main and the wiring of the
// real standard streams, which facade.Execute does not.

const (
	inFile = iota
	inPipe
	inDir    // reads fail (EISDIR)
	inWrOnly // reads fail (EBADF)
	inMissing
)

const (
	outPipe   = iota
	outFull   // writes fail (ENOSPC)
	outRdOnly // writes fail (EBADF)
	outBroken // writes fail (EPIPE)
)

func procBin() string {
	p, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return ""
	}
	p = filepath.Join(filepath.Dir(p), "gpgpdump")
	if _, err := os.Stat(p); err != nil {
		return ""
	}
	return p
}

type procOut struct {
	Exit      int
	Out, Errb []byte
}

// procRun runs the program on a document.
func procRun(args []string, data []byte, in, out int) (*procOut, error) {
	bin := procBin()
	if bin == "" {
		return nil, nil
	}
	dir, err := os.MkdirTemp(scratch, "proc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, simFileName)
	viaFile := false
	for _, a := range args {
		viaFile = viaFile || a == "-f"
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"TZ=UTC", "HOME=" + dir, "TMPDIR=" + dir}
	var open []*os.File
	defer func() {
		for _, f := range open {
			f.Close()
		}
	}()
	get := func(f *os.File, err error) (*os.File, error) {
		if err == nil {
			open = append(open, f)
		}
		return f, err
	}
	if in == inDir && viaFile {
		err = os.Mkdir(file, 0o755)
	} else if in != inMissing {
		err = os.WriteFile(file, data, 0o644)
	}
	if err != nil {
		return nil, err
	}
	if !viaFile {
		switch in {
		case inFile:
			if cmd.Stdin, err = get(os.Open(file)); err != nil {
				return nil, err
			}
		case inPipe:
			cmd.Stdin = struct{ *bytes.Reader }{bytes.NewReader(data)}
		case inDir:
			if cmd.Stdin, err = get(os.Open(dir)); err != nil {
				return nil, err
			}
		default:
			if cmd.Stdin, err = get(os.OpenFile(file, os.O_WRONLY|os.O_CREATE, 0o644)); err != nil {
				return nil, err
			}
		}
	}
	var o, e bytes.Buffer
	cmd.Stderr = &e
	switch out {
	case outPipe:
		cmd.Stdout = &o
	case outFull:
		if cmd.Stdout, err = get(os.OpenFile("/dev/full", os.O_WRONLY, 0)); err != nil {
			return nil, nil
		}
	case outRdOnly:
		if cmd.Stdout, err = get(os.Open("/dev/null")); err != nil {
			return nil, err
		}
	case outBroken:
		r, w, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		r.Close()
		cmd.Stdout = w
		open = append(open, w)
	}
	stats.Procs++
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if _, ok := err.(*exec.ExitError); err != nil && !ok && !strings.Contains(err.Error(), "broken pipe") {
		return nil, err
	}
	return &procOut{cmd.ProcessState.ExitCode(), o.Bytes(), e.Bytes()}, nil
}

// procScn draws a process-level scenario for C01, C03 or C07.
func procScn(r *Rng, ins, outs []int) *Scn {
	g := NewG(r)
	d := g.doc()
	if r.P(1, 2) {
		d.Armor = g.armor(d)
	}
	opt := drawOpts(r)
	if !strings.Contains(opt, "u") {
		opt += "u"
	}
	s := &Scn{Kind: "proc", Doc: d, X: map[string]int{"in": Pick(r, ins...), "out": Pick(r, outs...)}}
	s.Ops = []*Op{mkOp(Pick(r, "stdin", "file"), opt, drawFmt(r), Stream{}, "")}
	return s
}

// procCheck decides one: the outcome of the program against what the faults
// demand, or else against the same operation inside the simulator.
func procCheck(s *Scn, rec *Rec) string {
	op := s.Ops[0]
	in, out := s.X["in"], s.X["out"]
	base := rec.run(s, op)
	po, err := procRun(op.Args, s.Doc.Bytes(), in, out)
	if err != nil {
		panic(err)
	}
	if po == nil {
		return ""
	}
	rec.active = true
	rec.add("proc", op.Src, in, out, kindsOf(s.Doc))
	rec.log = append(rec.log, fmt.Sprintf("proc %d %x %x", po.Exit, hash64(po.Out), hash64(po.Errb)))
	what := fmt.Sprintf("gpgpdump %q: exit status %d, %d bytes out, stderr %q", op.Args, po.Exit, len(po.Out), clipStr(po.Errb))
	if in >= inDir && !(in == inWrOnly && op.Src == "file") {
		fired([]string{"", "", "read EISDIR", "read EBADF", "missing file"}[in])
		if po.Exit == 0 || len(po.Out) > 0 || len(po.Errb) == 0 {
			return "read failure not reported: the program with failing input: " + what
		}
		return ""
	}
	if out != outPipe {
		if base.Exit != 0 || len(base.Out) == 0 {
			rec.active = false
			return ""
		}
		fired([]string{"", "write ENOSPC", "write EBADF", "write EPIPE"}[out])
		if po.Exit == 0 {
			return "failed write reported as success: the program with failing output: " + what
		}
		return ""
	}
	if (po.Exit == 0) != (base.Exit == 0) {
		return fmt.Sprintf("source changes the outcome: the simulated run: exit status %d; %s", base.Exit, what)
	}
	if !bytes.Equal(po.Out, base.Out) {
		return "source changes the dump: the simulated run / the program: " + diffAt(base.Out, po.Out)
	}
	if (len(po.Errb) > 0) != (len(base.Errb) > 0) {
		return "source changes the outcome: error message: " + what
	}
	return ""
}

func clipStr(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}
