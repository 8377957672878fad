package locations

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type pruneCase struct {
	Header bool
	Files  []int
	Skip   int
	All    bool // the environment says not to prune
}

var pruneFiles = []struct {
	file     string
	internal bool
}{
	{"/home/u/project/a_test.go", false}, {"/home/u/ginkgoish/b.go", false}, {"/home/u/myginkgo/c.go", false}, {"/home/u/ginkgo.go", false},
	{"/go/pkg/mod/github.com/onsi/ginkgo/v2@v2.1.0/internal/suite.go", true}, {"/go/src/github.com/onsi/ginkgo/internal/suite.go", true},
	{"/usr/pkg/runtime/panic.go", true}, {"/usr/pkg/testing/testing.go", true}, {"/usr/pkg/runtimes/x.go", false}, {"/go/pkg/mod/x/testing/t.go", false},
}

// C04: stack traces leave out what is internal to Ginkgo, and nothing else.
func TestC04_prune(t *testing.T) {
	vf.Run(t, vf.Prop[pruneCase]{ID: "C04", Sub: "prune", Rule: "something is left out and something stays", Quick: 100000, Thorough: 2000000,
		Gen: func(t *rapid.T) (c pruneCase) {
			c.Header, c.All = vf.Pct(t, "header", 60), vf.Pct(t, "all", 15)
			for n := vf.Range(t, "calls", 2, 12); n > 0; n-- {
				c.Files = append(c.Files, vf.U(t, "file", len(pruneFiles)))
			}
			c.Skip = vf.U(t, "skip", len(c.Files)-1)
			return
		},
		Check: func(c pruneCase) vf.Outcome {
			var in, want strings.Builder
			if c.Header {
				in.WriteString("goroutine 29 [running]:\n")
			}
			dropped, kept := false, false
			for i, f := range c.Files {
				s := fmt.Sprintf("example.com/pkg.f%d(0x1, {0x2, 0x3})\n\t%s:%d +0x%x\n", i, pruneFiles[f].file, i+1, i)
				in.WriteString(s)
				if i > c.Skip && (c.All || !pruneFiles[f].internal) {
					want.WriteString(s)
					kept = true
				} else if i > c.Skip {
					dropped = true
				}
			}
			if c.All {
				os.Setenv("GINKGO_PRUNE_STACK", "FALSE")
			} else {
				os.Unsetenv("GINKGO_PRUNE_STACK")
			}
			defer os.Unsetenv("GINKGO_PRUNE_STACK")
			got := types.PruneStack(in.String(), c.Skip)
			if strings.TrimRight(got, "\n") != strings.TrimRight(want.String(), "\n") {
				return vf.Fail("pruned to\n%s\nwant\n%s", got, want.String())
			}
			return vf.Outcome{NonTrivial: dropped && kept}
		}})
}
