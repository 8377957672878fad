package engine

import (
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

type P = prog.Prog

type stats struct {
	p     *P
	exp   *prog.Expected
	res   *prog.Result
	specs []*prog.Spec
}

// serial is the shape of most engine properties: a generated suite is run and compared with the reference model.
func serial(t *testing.T, id, sub, rule string, quick, thorough int, profile prog.Profile, asp prog.Aspect, classify func(s stats) (bool, []string)) {
	vf.Run(t, vf.Prop[*P]{ID: id, Sub: sub, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) *P { return prog.Gen(t, profile) },
		Check: func(p *P) vf.Outcome {
			res, exp, err := prog.CheckSerial(p, asp)
			out := vf.Outcome{Err: err}
			if exp != nil {
				out.Known = exp.Known
				out.NonTrivial, out.Classes = classify(stats{p, exp, res, p.Specs()})
			}
			return out
		}})
}

func always(s stats) (bool, []string) { return true, nil }
