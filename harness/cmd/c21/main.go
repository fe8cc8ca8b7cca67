// C21: the command line tool accounts for every input line in order.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc"
	"verif/model"
	. "verif/tool"
)

func one(t *mc.T, d *Def, chunks [][]byte, end int) {
	t.At(func() string { return fmt.Sprintf("pipeline %s, reads %q, end %d", d.Name, chunks, end) })
	in := bytes.Join(chunks, nil)
	r := Exec(t, []string{"-p", DefFile(d)}, chunks, end, nil)
	want := Expect(d, in)
	if end == Reset {
		// Whether what was read of an unfinished line when the input fails is a line
		// is left open.
		whole := Expect(d, in[:bytes.LastIndexByte(in, '\n')+1])
		if n := len(want); n == len(whole)+1 {
			outs, errs := 0, 0
			for _, o := range want {
				if o.Out == nil {
					errs++
				} else {
					outs++
				}
			}
			if want[n-1].Out != nil && strings.Count(r.Stdout, "\n") == outs-1 || want[n-1].Out == nil && strings.Count(r.Stderr, "\n") <= errs {
				want = whole
			}
		}
	}
	Check(t, r, want, end == Reset)
	t.Eval(1)
	t.Outcome(fmt.Sprint(d.Name, len(want), end, mc.Hash(r.Stdout+r.Stderr)))
	t.Trace(1)
	t.Sample(func() string {
		return fmt.Sprintf("pipeline %s, reads %s: exit %d, stdout %s, stderr %s", d.Name, mc.Short(fmt.Sprintf("%q", chunks)), r.Code, mc.Short(r.Stdout), mc.Short(r.Stderr))
	})
}

// split cuts s after byte i for every bit i of m.
func split(s []byte, m uint) (out [][]byte) {
	from := 0
	for i := 0; i+1 < len(s); i++ {
		if m>>uint(i)&1 == 1 {
			out = append(out, s[from:i+1])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

// words enumerates all strings over alpha of length n.
func words(alpha []string, n int, f func([]string)) {
	w := make([]string, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(w)
			return
		}
		for _, a := range alpha {
			w[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

var byteAlpha = []string{"a", "D", "F", "\n", "\r", " "}

var kinds = []string{"a\n", "\n", " \t\r\n", "b c \r\n", " D\n", "F\n", "M x\n", "C\n", "Nan\n", "\"\\<&>\u2028\n", "\xff\x00z\n"}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	thorough := tier == "thorough"
	ok := true
	y := func(k string, f func(*mc.T)) {
		if ok {
			ok = yield(k, f)
		}
	}
	// 1. All short inputs with all splits, each a whole run of the tool.
	L := 3
	if thorough {
		L = 5
	}
	for n := 1; n <= L; n++ {
		words(byteAlpha, n, func(w []string) {
			s := strings.Join(w, "")
			y(fmt.Sprintf("short %q", s), func(t *mc.T) {
				for m := uint(0); m < 1<<uint(n-1); m++ {
					one(t, &Defs[0], split([]byte(s), m), EOF)
				}
			})
		})
	}
	y("empty", func(t *mc.T) {
		for i := range Defs {
			one(t, &Defs[i], nil, EOF)
			one(t, &Defs[i], nil, Reset)
		}
	})
	// 2. All short inputs with all splits, as parts of one stream.
	L = 5
	if thorough {
		L = 6
	}
	for n := 1; n <= L; n++ {
		for _, first := range byteAlpha {
			first := first
			n := n
			for i := range Defs {
				d := &Defs[i]
				if n == L && i != 0 {
					continue
				}
				y(fmt.Sprintf("stream %s %d %q", d.Name, n, first), func(t *mc.T) {
					var chunks [][]byte
					cases := int64(0)
					flush := func() {
						one(t, d, chunks, EOF)
						chunks = nil
					}
					words(byteAlpha, n-1, func(w []string) {
						s := []byte(first + strings.Join(w, "") + "\n")
						for m := uint(0); m < 1<<uint(len(s)-1); m++ {
							chunks = append(chunks, split(s, m)...)
							cases++
						}
						if len(chunks) > 4000 {
							flush()
						}
					})
					if len(chunks) > 0 {
						flush()
					}
					t.Eval(cases)
					t.Count("stream_cases", cases)
				})
			}
		}
	}
	// 3. All sequences of line kinds, ending with or without a newline, in one read
	// and line by line; whole runs.
	L = 2
	if thorough {
		L = 3
	}
	for n := 1; n <= L; n++ {
		for i := range Defs {
			d := &Defs[i]
			for _, first := range kinds {
				first := first
				n := n
				y(fmt.Sprintf("kinds %s %d %q", d.Name, n, first), func(t *mc.T) {
					words(kinds, n-1, func(w []string) {
						lines := append([]string{first}, w...)
						s := strings.Join(lines, "")
						one(t, d, [][]byte{[]byte(s)}, EOF)
						one(t, d, [][]byte{[]byte(s[:len(s)-1])}, EOF)
						var c [][]byte
						for _, l := range lines {
							c = append(c, []byte(l))
						}
						one(t, d, c, EOF)
					})
				})
			}
		}
	}
	// 4. All longer sequences of kinds, concatenated.
	L = 4
	if thorough {
		L = 5
	}
	for i := range Defs {
		d := &Defs[i]
		for _, first := range kinds {
			first := first
			y(fmt.Sprintf("long kinds %s %q", d.Name, first), func(t *mc.T) {
				var b []byte
				n := int64(0)
				words(kinds, L-1, func(w []string) {
					b = append(append(b, first...), strings.Join(w, "")...)
					n++
				})
				one(t, d, [][]byte{b}, EOF)
				t.Eval(n)
				t.Count("sequence_cases", n)
			})
		}
	}
	// 5. Every byte and every code point, alone, between and around letters.
	y("bytes", func(t *mc.T) {
		var b []byte
		for c := 0; c < 256; c++ {
			x := byte(c)
			b = append(b, x, '\n', 'a', x, 'a', '\n', x, 'a', x, '\n', x, x, '\n')
		}
		for i := range Defs {
			one(t, &Defs[i], [][]byte{b}, EOF)
		}
	})
	step := 0x1000
	for lo := 0; lo <= 0x10ffff; lo += step {
		lo := lo
		if !thorough && lo >= 0x10000 && lo%0x10000 != 0 {
			continue
		}
		y(fmt.Sprintf("code points %x", lo), func(t *mc.T) {
			var b []byte
			for r := lo; r < lo+step; r++ {
				c := string(rune(r))
				b = append(b, c+"\n"+c+"a"+c+"\n"+"D"+c+"\n"...)
			}
			one(t, &Defs[1], [][]byte{b}, EOF)
			t.Eval(int64(3 * step))
		})
	}
	// 6. Long lines around the sizes of usual buffers, in every position.
	lens := []int{1022, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 1 << 18, 1 << 20}
	if thorough {
		lens = append(lens, 1<<20+1, 1<<21, 1<<22, 1<<24)
		for k := 4000; k < 4200; k++ {
			lens = append(lens, k)
		}
		for k := 65500; k < 65570; k++ {
			lens = append(lens, k)
		}
	}
	for _, n := range model.WithSourceSizes(lens, 1<<24) {
		if n < 1000 {
			continue
		}
		n := n
		y(fmt.Sprintf("long %d", n), func(t *mc.T) {
			body := strings.Repeat("abcdefgh", n/8+1)[:n]
			for _, kind := range []string{"", "D", "F", "C", "N"} {
				for _, nl := range []string{"\n", "\r\n"} {
					x := (kind + body)[:n] + nl
					d := &Defs[1]
					for _, c := range [][]string{
						{x}, {x[:n]}, {x + "b\n"}, {"b\n", x}, {"b\n\n" + x + "c\nF\n"}, {x + x + x[:n]}, {x[:n], nl, "e\n"},
						{strings.Repeat(" ", n) + nl + "e\n"}, {strings.Repeat(" ", n) + x + strings.Repeat("\t", n) + nl + x},
						{x[:n] + "\r" + nl + "z"},
					} {
						var chunks [][]byte
						for _, s := range c {
							chunks = append(chunks, []byte(s))
						}
						one(t, d, chunks, EOF)
					}
					one(t, d, [][]byte{[]byte(x), []byte("b\n")}, Reset)
					if n > 1<<18 {
						break
					}
				}
			}
		})
	}
	// 7. Lines of every length.
	y("all lengths", func(t *mc.T) {
		max := 1500
		if thorough {
			max = 5000
		}
		var b []byte
		for n := 0; n <= max; n++ {
			b = append(b, strings.Repeat("x", n)+"\n"...)
		}
		one(t, &Defs[0], [][]byte{b}, EOF)
	})
	y("unusual lines", func(t *mc.T) {
		var b []byte
		for _, name := range model.OddNames() {
			if strings.Contains(name, "\n") {
				continue
			}
			b = append(b, name+"\n"+name+"x\n  "+name+" y\t\nx "+name+"\r\nD"+name+"\n\n"...)
		}
		for i := range Defs {
			one(t, &Defs[i], [][]byte{b}, EOF)
		}
	})
	// 8. Many lines.
	many := 200000
	if thorough {
		many = 2000000
	}
	for i := range Defs {
		d := &Defs[i]
		y("many "+d.Name, func(t *mc.T) {
			var b []byte
			for k := 0; k < many; k++ {
				b = append(b, kinds[k%len(kinds)]...)
				if k%7 == 0 {
					b = append(b, '\n')
				}
			}
			one(t, d, [][]byte{b}, EOF)
		})
	}
	// 9. The input fails after every byte.
	texts := []string{"a\nb\n", "a\r\n\nF\nb", "D\n  x  \nC\n", "F\nM\na"}
	if thorough {
		texts = append(texts, "\n\n\na\n", strings.Join(kinds, ""))
	}
	for _, s := range texts {
		s := s
		for i := range Defs {
			d := &Defs[i]
			y(fmt.Sprintf("reset %s %q", d.Name, s), func(t *mc.T) {
				for n := 0; n <= len(s); n++ {
					one(t, d, [][]byte{[]byte(s[:n])}, Reset)
					if n < 8 || thorough {
						var c [][]byte
						for k := 0; k < n; k++ {
							c = append(c, []byte{s[k]})
						}
						one(t, d, c, Reset)
					}
				}
			})
		}
	}
	// 10. The input cannot be read at all, or the output cannot be written.
	y("faults", func(t *mc.T) {
		for i := range Defs {
			d := &Defs[i]
			t.Atf("stdin is a directory")
			f, err := os.Open("/")
			Must(err)
			r := Start(t, []string{"-p", DefFile(d)}, f, nil, nil)
			Check(t, r, nil, true)
			t.Eval(1)
			t.Atf("stdin is write-only")
			f, err = os.OpenFile(filepath.Join(Scratch, fmt.Sprintf("wo%d", os.Getpid())), os.O_CREATE|os.O_WRONLY, 0o600)
			Must(err)
			r = Start(t, []string{"-p", DefFile(d)}, f, nil, nil)
			Check(t, r, nil, true)
			t.Eval(1)
			for _, s := range []string{"a\n", "a\nF\n\nD\nb\n", "x\ny\nz\nM\nC"} {
				t.Atf(fmt.Sprintf("stdout is /dev/full, input %q, pipeline %s", s, d.Name))
				full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				Must(err)
				r := Exec(t, []string{"-p", DefFile(d)}, [][]byte{[]byte(s)}, EOF, full)
				full.Close()
				want := Expect(d, []byte(s))
				msgs := strings.Split(strings.TrimSuffix(r.Stderr, "\n"), "\n")
				// Each line that is not dropped has one message naming it. A tool that
				// gives up on output must end with a failure.
				for k, o := range want {
					if k >= len(msgs) || !Names(msgs[k], o.Num) {
						if r.Code != 0 && k < len(msgs) {
							break
						}
						t.Fail("output fails: no message %d naming line %d; stderr %s, exit %d", k+1, o.Num, mc.Short(r.Stderr), r.Code)
					}
				}
				t.Eval(1)
			}
		}
	})
	// 11. Pipelines that cannot be loaded.
	y("load", func(t *mc.T) {
		bad := map[string]string{
			"empty": "", "no-id": "processors:\n- vline: {}\n", "syntax": "id: [\n", "tab": "\tid: p\n", "list": "- a\n", "scalar": "abc\n", "null": "null\n",
			"unknown": "id: p\nprocessors:\n- nosuch: {}\n", "unknown-handler": "id: p\nprocessors:\n- vline:\n    on_failure:\n    - nosuch: {}\n",
			"unknown-global": "id: p\nprocessors:\n- vline: {}\non_failure:\n- nosuch: {}\n", "two": "id: p\nprocessors:\n- vline: {}\n  lowercase: {field: a}\n",
			"required": "id: p\nprocessors:\n- lowercase: {}\n", "type": "id: p\nprocessors:\n- lowercase: {field: {a: b}}\n",
			"second": "id: p\nprocessors:\n- vline: {}\n- append: {value: x}\n", "binary": "\x00\x01\xff", "procs-map": "id: p\nprocessors: {vline: {}}\n",
		}
		for name, text := range bad {
			f := filepath.Join(Scratch, fmt.Sprintf("bad-%s-%d.yml", name, os.Getpid()))
			Must(os.WriteFile(f, []byte(text), 0o600))
			badRun(t, name, "-p", f)
		}
		badRun(t, "none")
		badRun(t, "missing file", "-p", filepath.Join(Scratch, "no-such-file.yml"))
		badRun(t, "directory", "-p", Scratch)
		badRun(t, "empty name", "-p", "")
		badRun(t, "unknown flag", "-nosuch", "-p", DefFile(&Defs[0]))
	})
}

func badRun(t *mc.T, name string, args ...string) {
	t.Atf("pipeline: " + name)
	for _, s := range []string{"", "a\nb\n"} {
		f := filepath.Join(Scratch, fmt.Sprintf("in-%d", os.Getpid()))
		Must(os.WriteFile(f, []byte(s), 0o600))
		in, err := os.Open(f)
		Must(err)
		r := Start(t, args, in, nil, nil)
		if r.Code == 0 || r.Stderr == "" || r.Stdout != "" {
			t.Fail("the pipeline cannot be loaded, but exit code %d, stdout %s, stderr %s", r.Code, mc.Short(r.Stdout), mc.Short(r.Stderr))
		}
		if strings.Contains(r.Stderr, "goroutine 1 [running]") {
			t.Fail("the pipeline cannot be loaded, and the tool crashes: %s", mc.Short(r.Stderr))
		}
		t.Eval(1)
		t.Outcome("bad " + name)
	}
}

func main() {
	Init()
	mc.Main(&mc.Check{
		ID: "C21", Level: "fault_enumeration",
		Rule:  "a case is an input, the way it is split into reads (each chunk is written only when the one before was read), how it ends and a pipeline definition; the real binary runs on it and both streams and the exit code are compared with a reference; outcomes differ in pipeline, number of outcomes or output",
		Units: units,
		Bounds: func(tier string) map[string]interface{} {
			th := tier == "thorough"
			pick := func(a, b int) int {
				if th {
					return b
				}
				return a
			}
			return map[string]interface{}{
				"byte alphabet": byteAlpha, "whole-run input length": pick(3, 5), "streamed input length": pick(5, 6), "splits": "all",
				"line kinds": len(kinds), "kind sequences as whole runs": pick(2, 3), "kind sequences in streams": pick(4, 5), "pipelines": len(Defs),
				"line lengths to": pick(1<<20, 1<<24), "lines per run to": pick(200000, 2000000), "read failure": "after every byte of the recorded inputs",
			}
		},
		Assumptions: []string{"whether what was read of an unfinished line when the input fails counts as a line is left open", "the kernel hands a blocked reader of a pipe what was written as one read", "vline, a processor linked into the tool for the check, drops, cancels or fails by the first letter of the line"},
	})
}
