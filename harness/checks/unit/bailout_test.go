package unit

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"pgregory.net/rapid"
)

// holder is a process that has inherited our standard output and writes what it is told.
type holder struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	ack    *bufio.Reader
	window int // while which interception it was started (0: while there was none)
}

func startHolder(window int) (*holder, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command("/bin/sh", "-c", `while read l; do echo "$l"; echo ok >&3; done`)
	cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = os.Stdout, nil, []*os.File{w}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	err = cmd.Start()
	w.Close()
	if err != nil {
		r.Close()
		return nil, err
	}
	return &holder{cmd, in, bufio.NewReader(r), window}, nil
}

// say has the process write a line; it returns once it has been written.
func (h *holder) say(text string) error {
	if _, err := io.WriteString(h.in, text+"\n"); err != nil {
		return err
	}
	_, err := h.ack.ReadString('\n')
	return err
}

// P07: a process that still holds the output does not block those that come after, nor does it cost them theirs.
func TestP07_held(t *testing.T) {
	vf.Run(t, vf.Prop[interceptCase]{ID: "P07", Sub: "held", Rule: "interception ends, twice, while a process still holds the intercepted output, and something is captured in between", Quick: 64, Thorough: 800,
		Gen: func(t *rapid.T) interceptCase {
			c := interceptCase{Global: vf.Pct(t, "global", 30)}
			for i := vf.Range(t, "rounds", 2, 4); i > 0; i-- {
				c.Ops = append(c.Ops, iop{Op: "start"})
				for k := vf.Range(t, "ops", 1, 6); k > 0; k-- {
					o := iop{Op: vf.Pick(t, "op", "spawn", "spawn", "say", "out", "out", "err", "release", "cycle")}
					if o.Op == "out" || o.Op == "err" || o.Op == "say" {
						o.Text, o.N = vf.Pick(t, "text", "a", "bc", "d e", "fgh"), vf.U(t, "which", 3)
					}
					c.Ops = append(c.Ops, o)
				}
				c.Ops = append(c.Ops, iop{Op: "stop"})
				for k := vf.U(t, "ops", 3); k > 0; k-- {
					c.Ops = append(c.Ops, iop{Op: vf.Pick(t, "op", "say", "out", "release", "spawn"), Text: vf.Pick(t, "text", "x", "yz"), N: vf.U(t, "which", 3)})
				}
			}
			return c
		},
		Check: func(c interceptCase) (verdict vf.Outcome) {
			f, err := os.CreateTemp("", "vstdio")
			if err != nil {
				return vf.Outcome{}
			}
			defer os.Remove(f.Name())
			defer f.Close()
			undo := stdio(f, c.Global)
			var in internal.OutputInterceptor
			if c.Global {
				in = internal.NewOSGlobalReassigningOutputInterceptor()
			} else {
				in = internal.NewOutputInterceptor()
			}
			var hs []*holder
			defer func() {
				if e := recover(); e != nil {
					verdict = vf.Fail("panic: %v", e)
				}
				for _, h := range hs {
					h.in.Close()
					h.cmd.Wait()
				}
				undo()
			}()
			defer in.Shutdown()
			window, on := 0, false
			// what is captured in this interception: before it was last resumed, and since
			before, since, real := "", "", ""
			held := func() bool {
				for _, h := range hs {
					if h.window == window {
						return true
					}
				}
				return false
			}
			rounds, between := 0, false
			ends := func(do func()) error {
				if !on {
					do()
					return nil
				}
				if held() {
					rounds++
					since = internal.BAILOUT_MESSAGE
				} else if rounds > 0 && since != "" {
					between = true
				}
				before, since, on = before+since, "", false
				t0 := time.Now()
				do()
				if d := time.Since(t0); d > 20*time.Second {
					return fmt.Errorf("it took %v to stop intercepting", d)
				}
				return nil
			}
			for i, o := range c.Ops {
				if rounds > 4 {
					break
				}
				switch o.Op {
				case "start":
					before, since, on = "", "", true
					window++
					in.StartInterceptingOutput()
				case "stop":
					got := ""
					if err := ends(func() { got = in.StopInterceptingAndReturnOutput() }); err != nil {
						return vf.Fail("op %d: %v", i, err)
					}
					if got != before {
						return vf.Fail("op %d: %q was intercepted, expected %q", i, got, before)
					}
				case "cycle":
					if err := ends(in.PauseIntercepting); err != nil {
						return vf.Fail("op %d: %v", i, err)
					}
					in.ResumeIntercepting()
					on = true
					window++
				case "spawn":
					if len(hs) > 2 {
						continue
					}
					w := 0
					if on {
						w = window
					}
					h, err := startHolder(w)
					if err != nil {
						return vf.Outcome{}
					}
					hs = append(hs, h)
				case "release":
					if len(hs) > 0 {
						h := hs[0]
						hs = hs[1:]
						h.in.Close()
						h.cmd.Wait()
					}
				case "say":
					if len(hs) == 0 {
						continue
					}
					h := hs[o.N%len(hs)]
					if err := h.say(o.Text); err != nil {
						return vf.Fail("op %d: a process that was started while output was intercepted could not write: %v", i, err)
					}
					switch {
					case h.window == 0:
						real += o.Text + "\n"
					case on && h.window == window:
						since += o.Text + "\n"
					}
				default:
					g := os.Stdout
					if o.Op == "err" {
						g = os.Stderr
					}
					g.WriteString(o.Text)
					if on {
						since += o.Text
					} else {
						real += o.Text
					}
				}
			}
			if on {
				got := ""
				if err := ends(func() { got = in.StopInterceptingAndReturnOutput() }); err != nil || got != before {
					return vf.Fail("at the end: %q was intercepted, expected %q (%v)", got, before, err)
				}
			}
			os.Stdout.WriteString("end\n")
			if got, _ := os.ReadFile(f.Name()); string(got) != real+"end\n" {
				return vf.Fail("%q was printed, expected %q", got, real+"end\n")
			}
			return vf.Outcome{NonTrivial: rounds > 1 && between || rounds > 0 && between && strings.Contains(before, "\n"), Classes: []string{fmt.Sprintf("held-%d", min(rounds, 3)), fmt.Sprintf("global-%v", c.Global)}}
		}})
}
