package unit

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"pgregory.net/rapid"
)

type iop struct {
	Op   string
	Text string `json:",omitempty"`
	N    int    `json:",omitempty"` // how often the text is repeated
}

type interceptCase struct {
	Global bool // the interceptor that replaces os.Stdout and os.Stderr (else: the one that redirects the file descriptors)
	Ops    []iop
}

// stdio sends this process's standard output and error to a file until it is undone.
func stdio(f *os.File, global bool) (undo func()) {
	o, e := os.Stdout, os.Stderr
	if global {
		os.Stdout, os.Stderr = f, f
		return func() { os.Stdout, os.Stderr = o, e }
	}
	s1, _ := syscall.Dup(1)
	s2, _ := syscall.Dup(2)
	syscall.Dup2(int(f.Fd()), 1)
	syscall.Dup2(int(f.Fd()), 2)
	return func() {
		syscall.Dup2(s1, 1)
		syscall.Dup2(s2, 2)
		syscall.Close(s1)
		syscall.Close(s2)
	}
}

func openFiles() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

// P07: what is printed while output is intercepted is captured, in full and in order; everything else is printed.
func TestP07_intercept(t *testing.T) {
	vf.Run(t, vf.Prop[interceptCase]{ID: "P07", Sub: "intercept", Rule: "something is printed while output is intercepted", Quick: 24000, Thorough: 500000,
		Gen: func(t *rapid.T) interceptCase {
			c := interceptCase{Global: vf.Pct(t, "global", 30)}
			for i := vf.Range(t, "ops", 1, 14); i > 0; i-- {
				o := iop{Op: vf.Pick(t, "op", "start", "start", "startfwd", "stop", "stop", "pause", "resume", "out", "out", "err", "raw", "out", "shutdown")}
				switch o.Op {
				case "out", "err", "raw":
					o.Text = rep.Text(t, "text")
					o.N = 1
					if vf.Pct(t, "big", 5) {
						o.Text, o.N = o.Text+"0123456789abcdef", 10000
					}
					if vf.Pct(t, "child", 3) && !c.Global && !strings.Contains(o.Text, "\x00") {
						o.Op = "child"
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Check: func(c interceptCase) vf.Outcome {
			f, err := os.CreateTemp("", "vstdio")
			if err != nil {
				return vf.Outcome{}
			}
			defer os.Remove(f.Name())
			defer f.Close()
			files := openFiles()
			undo := stdio(f, c.Global)
			var in internal.OutputInterceptor
			if c.Global {
				in = internal.NewOSGlobalReassigningOutputInterceptor()
			} else {
				in = internal.NewOutputInterceptor()
			}
			verdict := func() vf.Outcome {
				defer undo()
				defer in.Shutdown()
				return interceptOps(c, in, f)
			}()
			if verdict.Err != nil {
				return verdict
			}
			for i := 0; openFiles() > files; i++ {
				if i > 2000 {
					return vf.Fail("%d files are open, %d before", openFiles(), files)
				}
				time.Sleep(time.Millisecond)
			}
			return verdict
		}})
}

func interceptOps(c interceptCase, in internal.OutputInterceptor, f *os.File) vf.Outcome {
	on, started, captured := false, false, false
	acc, real := "", ""
	var fwd *bytes.Buffer
	fwdWant := ""
	for i, o := range c.Ops {
		switch o.Op {
		case "start", "startfwd":
			if !on {
				acc, on, started, fwd, fwdWant = "", true, true, nil, ""
				if o.Op == "startfwd" {
					fwd = &bytes.Buffer{}
				}
			}
			if o.Op == "start" || fwd == nil {
				in.StartInterceptingOutput()
			} else {
				in.StartInterceptingOutputAndForwardTo(fwd)
			}
		case "stop":
			on = false
			if got := in.StopInterceptingAndReturnOutput(); got != acc {
				return vf.Fail("op %d: %q was intercepted, expected %q", i, got, acc)
			}
			if fwd != nil && fwd.String() != fwdWant {
				return vf.Fail("op %d: %q was forwarded, expected %q", i, fwd.String(), fwdWant)
			}
		case "pause":
			in.PauseIntercepting()
			on = false
		case "resume":
			if started {
				in.ResumeIntercepting()
				on = true
			}
		case "shutdown":
			in.Shutdown()
			on = false
		default:
			text := strings.Repeat(o.Text, o.N)
			switch {
			case o.Op == "err":
				os.Stderr.WriteString(text)
			case o.Op == "raw" && !c.Global:
				for b := []byte(text); len(b) > 0; {
					n, err := syscall.Write(1, b)
					if err != nil {
						return vf.Fail("op %d: %v", i, err)
					}
					b = b[n:]
				}
			case o.Op == "child":
				cmd := exec.Command("/bin/cat")
				cmd.Stdin = strings.NewReader(text)
				cmd.Stdout = os.Stdout
				if err := cmd.Run(); err != nil {
					return vf.Fail("op %d: %v", i, err)
				}
			default:
				os.Stdout.WriteString(text)
			}
			if on {
				acc += text
				fwdWant += text
				captured = captured || text != ""
			} else {
				real += text
			}
		}
	}
	if on {
		if got := in.StopInterceptingAndReturnOutput(); got != acc {
			return vf.Fail("at the end: %q was intercepted, expected %q", got, acc)
		}
	}
	os.Stdout.WriteString("end\n")
	if got, _ := os.ReadFile(f.Name()); string(got) != real+"end\n" {
		return vf.Fail("%q was printed, expected %q", got, real+"end\n")
	}
	return vf.Outcome{NonTrivial: captured, Classes: []string{fmt.Sprintf("global-%v", c.Global)}}
}
