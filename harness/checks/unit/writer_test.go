package unit

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"pgregory.net/rapid"
)

type wop struct {
	Op    string
	Texts []string `json:",omitempty"`
	N     int      `json:",omitempty"`
}

type tee struct {
	got, want bytes.Buffer
	on        bool
}

// R06: what is written to the GinkgoWriter is buffered, streamed and teed in full and in order.
func TestR06_writer(t *testing.T) {
	vf.Run(t, vf.Prop[[]wop]{ID: "R06", Sub: "writer", Rule: "two writes or more", Quick: 160000, Thorough: 4000000,
		Gen: func(t *rapid.T) []wop {
			var out []wop
			for i := vf.Range(t, "ops", 1, 14); i > 0; i-- {
				o := wop{Op: vf.Pick(t, "op", "write", "write", "write", "print", "println", "printf", "truncate", "mode", "tee", "clear", "log", "bytes"), N: vf.Range(t, "n", 0, 3)}
				for k := vf.Range(t, "texts", 1, 3); k > 0; k-- {
					o.Texts = append(o.Texts, rep.Text(t, "text"))
				}
				out = append(out, o)
			}
			return out
		},
		Check: func(ops []wop) vf.Outcome {
			var stream, wantStream, want bytes.Buffer
			w := internal.NewWriter(&stream)
			streaming, atStart := true, true
			var tees []*tee
			var held []byte
			heldWant := ""
			writes := 0
			did := func(s string) {
				writes++
				want.WriteString(s)
				for _, t := range tees {
					if t.on {
						t.want.WriteString(s)
					}
				}
				if !streaming {
					return
				}
				for i := 0; i < len(s); i++ {
					if s[i] == '\n' {
						atStart = true
					} else if atStart {
						wantStream.WriteString("  ")
						atStart = false
					}
					wantStream.WriteByte(s[i])
				}
			}
			for i, o := range ops {
				switch o.Op {
				case "write":
					n, err := w.Write([]byte(o.Texts[0]))
					if n != len(o.Texts[0]) || err != nil {
						return vf.Fail("Write of %d bytes: %d, %v", len(o.Texts[0]), n, err)
					}
					did(o.Texts[0])
				case "print":
					w.Print(o.Texts[0], o.N, len(o.Texts))
					did(fmt.Sprint(o.Texts[0], o.N, len(o.Texts)))
				case "println":
					w.Println(o.Texts[0], o.N)
					did(o.Texts[0] + " " + fmt.Sprint(o.N) + "\n")
				case "printf":
					w.Printf("%s|%03d|%%", o.Texts[0], o.N)
					did(fmt.Sprintf("%s|%03d|%%", o.Texts[0], o.N))
				case "truncate":
					w.Truncate()
					want.Reset()
				case "mode":
					streaming = o.N%2 == 0
					if streaming {
						w.SetMode(internal.WriterModeStreamAndBuffer)
					} else {
						w.SetMode(internal.WriterModeBufferOnly)
					}
				case "tee":
					t := &tee{on: true}
					tees = append(tees, t)
					w.TeeTo(&t.got)
				case "clear":
					w.ClearTeeWriters()
					for _, t := range tees {
						t.on = false
					}
				case "log":
					before := want.Len()
					internal.GinkgoLogrFunc(w).WithName("n").Info("msg", "k", o.N)
					got := string(w.Bytes())
					if len(got) <= before || !strings.HasSuffix(got, "\n") || !strings.Contains(got[before:], `"k"=`+fmt.Sprint(o.N)) || !strings.HasPrefix(got[before:], "n ") {
						return vf.Fail("op %d: logged %q", i, got[min(before, len(got)):])
					}
					did(got[before:])
				case "bytes":
					if string(held) != heldWant {
						return vf.Fail("op %d: what Bytes() returned earlier changed", i)
					}
					held, heldWant = w.Bytes(), want.String()
				}
				if got := string(w.Bytes()); got != want.String() || w.Len() != len(got) {
					return vf.Fail("op %d (%s): the buffer has %q (Len %d), expected %q", i, o.Op, got, w.Len(), want.String())
				}
				if stream.String() != wantStream.String() {
					return vf.Fail("op %d (%s): streamed %q, expected %q", i, o.Op, stream.String(), wantStream.String())
				}
				for k, t := range tees {
					if t.got.String() != t.want.String() {
						return vf.Fail("op %d (%s): tee writer %d got %q, expected %q", i, o.Op, k, t.got.String(), t.want.String())
					}
				}
			}
			if string(held) != heldWant {
				return vf.Fail("what Bytes() returned earlier changed")
			}
			return vf.Outcome{NonTrivial: writes > 1}
		}})
}

type raceCase struct {
	Lines  []int // per goroutine
	Stream bool
	Ops    int
}

// R06: writes from several goroutines do not mix, and arrive everywhere in one order.
func TestR06_concurrent(t *testing.T) {
	vf.Run(t, vf.Prop[raceCase]{ID: "R06", Sub: "concurrent", Rule: "two goroutines or more", Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) raceCase {
			c := raceCase{Stream: vf.Pct(t, "stream", 60), Ops: vf.Range(t, "ops", 0, 5)}
			for i := vf.Range(t, "goroutines", 1, 6); i > 0; i-- {
				c.Lines = append(c.Lines, vf.Range(t, "lines", 1, 20))
			}
			return c
		},
		Check: func(c raceCase) vf.Outcome {
			var stream, teed bytes.Buffer // the writer serializes: these need no lock
			w := internal.NewWriter(&stream)
			w.TeeTo(&teed)
			if !c.Stream {
				w.SetMode(internal.WriterModeBufferOnly)
			}
			wg := sync.WaitGroup{}
			for g, n := range c.Lines {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n; i++ {
						w.Printf("g%d line%d of some length\n", g, i)
					}
				}()
			}
			for i := 0; i < c.Ops; i++ {
				if b := w.Bytes(); len(b) > 0 && b[len(b)-1] != '\n' {
					return vf.Fail("half a write is visible: %q", b)
				}
				w.Len()
			}
			wg.Wait()
			got := string(w.Bytes())
			if teed.String() != got {
				return vf.Fail("teed %q, buffered %q", teed.String(), got)
			}
			if want := strings.ReplaceAll("  "+strings.TrimSuffix(got, "\n"), "\n", "\n  ") + "\n"; c.Stream && stream.String() != want {
				return vf.Fail("streamed %q, buffered %q", stream.String(), got)
			}
			next := make([]int, len(c.Lines))
			total := 0
			for _, line := range strings.Split(strings.TrimSuffix(got, "\n"), "\n") {
				var g, i int
				if n, _ := fmt.Sscanf(line, "g%d line%d", &g, &i); n != 2 || line != fmt.Sprintf("g%d line%d of some length", g, i) || next[g] != i {
					return vf.Fail("line %q (expected line %v)", line, next)
				}
				next[g]++
				total++
			}
			for g, n := range c.Lines {
				if next[g] != n {
					return vf.Fail("goroutine %d wrote %d lines, %d arrived", g, n, next[g])
				}
			}
			return vf.Outcome{NonTrivial: len(c.Lines) > 1}
		}})
}
