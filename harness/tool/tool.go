// Package tool runs the command line tool and knows what should become of its
// input.
package tool

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/mc"
)

var (
	Scratch = os.Getenv("VERIF_SCRATCH")
	Bin     string
)

// Def is a pipeline with a reference for what becomes of a line.
type Def struct {
	Name, Yaml string
	// ref returns the expected members besides the two the tool sets.
	failed func(kind byte) (out extra, fails bool)
	passed extra
}

type extra map[string]interface{}

var Defs = []Def{
	{"plain", "id: p\nprocessors:\n- vline: {}\n", func(byte) (extra, bool) { return nil, true }, nil},
	{"set", "id: p\nprocessors:\n- vline: {}\n- set: {target_field: ok, value: yes}\n- set: {target_field: event.copy, copy_from: event.original}\n",
		func(byte) (extra, bool) { return nil, true }, extra{"ok": "yes", "copy": true}},
	{"handler", "id: p\nprocessors:\n- vline:\n    on_failure:\n    - set: {target_field: err, value: h}\n- set: {target_field: ok, value: yes}\n",
		func(byte) (extra, bool) { return extra{"err": "h", "ok": "yes"}, false }, extra{"ok": "yes"}},
	{"global", "id: p\nprocessors:\n- vline: {}\n- set: {target_field: ok, value: yes}\non_failure:\n- set: {target_field: err, value: g}\n",
		func(byte) (extra, bool) { return extra{"err": "g"}, false }, extra{"ok": "yes"}},
	{"late", "id: p\nprocessors:\n- append: {field: tags, value: t}\n- vline: {}\n- append: {field: tags, value: u}\n",
		func(byte) (extra, bool) { return nil, true }, extra{"tags": []interface{}{"t", "u"}}},
}

// Outcome of a line.
type Outcome struct {
	Num  int
	Line string
	Out  map[string]interface{} // nil if an error is expected
}

// Expect is the reference: the outcomes of an input in order.
func Expect(d *Def, input []byte) (res []Outcome) {
	lines := strings.Split(string(input), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		x := d.passed
		switch l[0] {
		case 'D':
			continue
		case 'N': // no JSON form
			res = append(res, Outcome{i + 1, l, nil})
			continue
		case 'C':
			x = nil
			if d.Name == "late" {
				x = extra{"tags": []interface{}{"t"}}
			}
		case 'F', 'M':
			var fails bool
			if x, fails = d.failed(l[0]); fails {
				res = append(res, Outcome{i + 1, l, nil})
				continue
			}
		}
		text := strings.ToValidUTF8(l, "\ufffd")
		if text != l { // encoding/json replaces every invalid byte
			text = string([]rune(l))
		}
		ev := map[string]interface{}{"original": text}
		out := map[string]interface{}{"@metadata": map[string]interface{}{"line_number": json.Number(strconv.Itoa(i + 1))}, "event": ev}
		for k, v := range x {
			if k == "copy" {
				ev["copy"] = text
				continue
			}
			out[k] = v
		}
		res = append(res, Outcome{i + 1, l, out})
	}
	return
}

// How the input ends and where the output goes.
const (
	EOF = iota
	Reset
)

type Run struct {
	Code           int
	Stdout, Stderr string
	Unread         bool // the tool ended before it had read everything
}

func fionread(fd int) int {
	var n int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x541B, uintptr(unsafe.Pointer(&n))); e != 0 {
		return -1
	}
	return int(n)
}

// Exec runs the tool. The input is written chunk by chunk: each only when the
// one before has been read, so that the reads of the tool see that split.
func Exec(t *mc.T, args []string, chunks [][]byte, end int, stdout *os.File) Run {
	var r *os.File
	var w int
	if end == Reset {
		sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		Must(err)
		r, w = os.NewFile(uintptr(sp[0]), "in"), sp[1]
		// Unread data at the closing end makes the reader get ECONNRESET after the data.
		_, err = syscall.Write(sp[0], []byte("x"))
		Must(err)
	} else {
		var p [2]int
		Must(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
		r, w = os.NewFile(uintptr(p[0]), "in"), p[1]
	}
	res := Start(t, args, r, func(done chan struct{}) (unread bool) {
		defer syscall.Close(w)
		for _, c := range chunks {
			for len(c) > 0 {
				n := len(c)
				if n > 32768 {
					n = 32768
				}
				k, err := syscall.Write(w, c[:n])
				if err != nil {
					return true
				}
				c = c[k:]
				for i := 0; fionread(int(r.Fd())) > 0; i++ {
					select {
					case <-done:
						return true
					default:
					}
					if i < 200 {
						runtime.Gosched()
					} else {
						time.Sleep(20 * time.Microsecond)
					}
				}
			}
		}
		return false
	}, stdout)
	return res
}

func Start(t *mc.T, args []string, stdin *os.File, feed func(done chan struct{}) bool, stdout *os.File) Run {
	cmd := exec.Command(Bin, append([]string{"-metrics-addr", "127.0.0.1:0"}, args...)...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	cmd.Dir = Scratch
	var o, e bytes.Buffer
	if stdin != nil {
		cmd.Stdin = stdin
	}
	cmd.Stderr = &e
	if stdout != nil {
		cmd.Stdout = stdout
	} else {
		cmd.Stdout = &o
	}
	Must(cmd.Start())
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	var res Run
	if feed != nil {
		res.Unread = feed(done)
	}
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		cmd.Process.Kill()
		<-done
		t.Fail("the tool did not end within 50 s of the end of its input")
	}
	if stdin != nil {
		stdin.Close()
	}
	res.Code = cmd.ProcessState.ExitCode()
	res.Stdout, res.Stderr = o.String(), e.String()
	t.Trans(1)
	return res
}

func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "c21:", err)
		os.Exit(3)
	}
}

var numRE = regexp.MustCompile(`\d+`)

func Names(msg string, n int) bool {
	want := strconv.Itoa(n)
	for _, s := range numRE.FindAllString(msg, -1) {
		if s == want {
			return true
		}
	}
	return false
}

// Check compares a run with the expected outcomes.
func Check(t *mc.T, r Run, want []Outcome, endErr bool) {
	dec := json.NewDecoder(strings.NewReader(r.Stdout))
	dec.UseNumber()
	stderr := strings.Split(strings.TrimSuffix(r.Stderr, "\n"), "\n")
	if r.Stderr == "" {
		stderr = nil
	}
	outLines := strings.Count(r.Stdout, "\n")
	nout, nerr := 0, 0
	for _, o := range want {
		if o.Out == nil {
			if nerr >= len(stderr) || !Names(stderr[nerr], o.Num) {
				got := "nothing"
				if nerr < len(stderr) {
					got = mc.Short(stderr[nerr])
				}
				t.Fail("line %d (%s) fails in the pipeline: want message %d to name line %d, got %s", o.Num, mc.Short(o.Line), nerr+1, o.Num, got)
			}
			nerr++
			continue
		}
		nout++
		var got interface{}
		if err := dec.Decode(&got); err != nil {
			t.Fail("line %d (%s): no output line %d (%v); stderr %s, exit %d", o.Num, mc.Short(o.Line), nout, err, mc.Short(r.Stderr), r.Code)
		}
		if !equal(got, o.Out) {
			g, _ := json.Marshal(got)
			w, _ := json.Marshal(o.Out)
			t.Fail("line %d (%s): output is %s, want %s", o.Num, mc.Short(o.Line), mc.Short(string(g)), mc.Short(string(w)))
		}
	}
	if _, err := dec.Token(); err != io.EOF {
		t.Fail("more output than expected after %d lines: %s", nout, mc.Short(r.Stdout))
	}
	if outLines != nout || r.Stdout != "" && !strings.HasSuffix(r.Stdout, "\n") {
		t.Fail("%d events were written as %d lines: %s", nout, outLines, mc.Short(r.Stdout))
	}
	if endErr {
		if r.Code == 0 {
			t.Fail("the input failed but the tool exited with 0")
		}
		if len(stderr) <= nerr {
			t.Fail("the input failed but nothing was reported; stderr %s", mc.Short(r.Stderr))
		}
		return
	}
	if len(stderr) != nerr {
		t.Fail("%d messages for %d failing lines: %s", len(stderr), nerr, mc.Short(r.Stderr))
	}
	if r.Code != 0 {
		t.Fail("exit code %d for input that could be read", r.Code)
	}
	if r.Unread {
		t.Fail("the tool ended before reading all its input")
	}
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !equal(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func DefFile(d *Def) string { return filepath.Join(Scratch, "def-"+d.Name+".yml") }

// Init writes the pipeline definitions.
func Init() {
	Bin = filepath.Join(Scratch, "sawmill")
	for i := range Defs {
		if _, err := os.Stat(DefFile(&Defs[i])); err != nil {
			tmp := fmt.Sprintf("%s.%d", DefFile(&Defs[i]), os.Getpid())
			Must(os.WriteFile(tmp, []byte(Defs[i].Yaml), 0o644))
			Must(os.Rename(tmp, DefFile(&Defs[i])))
		}
	}
}
