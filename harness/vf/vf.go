// Package vf is the small property-running framework the checks share: it drives a rapid generator,
// journals every case before it is tried, counts what was generated, and leaves the (shrunk) failing
// case behind as a replay file. The driver (cmd/drv) reads what this package writes.
package vf

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Outcome is the verdict on one case.
type Outcome struct {
	Err        error    // non-nil: the property is broken on this case
	NonTrivial bool     // by the property's stated rule
	Classes    []string // what kind of case it was (reported as a histogram)
	Known      string   // non-empty: the violation matches a listed known finding (its id); not reported as a violation
	Evals      int      // executions this case stands for (default 1)
}

func Fail(format string, args ...any) Outcome { return Outcome{Err: fmt.Errorf(format, args...)} }

// Prop is one executable property.
type Prop[C any] struct {
	ID, Sub   string
	Rule      string
	Gen       func(t *rapid.T) C
	Check     func(c C) Outcome
	Quick     int           // cases over all shards, quick tier
	Thorough  int           // cases over all shards, thorough tier
	CaseLimit time.Duration // a case that runs longer is reported as stuck (default 120s)
}

// Result is what one shard of one sub-property writes for the driver.
type Result struct {
	Property, Sub string
	Rule          string
	Evaluations   int
	Cases         int
	Discarded     int
	NonTrivial    int
	Hashes        []uint64 // hashes of the distinct non-trivial cases
	Classes       map[string]int
	Known         map[string]int
	Samples       []json.RawMessage
	WallS         float64
	Failed        bool
	Flaky         bool
	Error         string
	Case          json.RawMessage
	Target        int
}

// Replay is a saved failing case.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Mode     string          `json:"mode"` // "case": one case in a fresh process; "shard": the seeded shard is run again
	Seed     int64           `json:"seed"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Tier     string          `json:"tier"`
	Case     json.RawMessage `json:"case"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Dir is the driver's scratch directory.
func Dir() string {
	d := os.Getenv("VF_DIR")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func Thorough() bool { return os.Getenv("VF_TIER") == "thorough" }
func Shard() int     { return envInt("VF_SHARD", 0) }

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Run runs the property on this shard's share of the cases (or on the replay case only).
func Run[C any](t *testing.T, p Prop[C]) {
	name := p.ID + "_" + p.Sub
	limit := p.CaseLimit
	if limit == 0 {
		limit = 120 * time.Second
	}
	if rp := os.Getenv("VF_REPLAY"); rp != "" {
		data, err := os.ReadFile(rp)
		if err != nil {
			t.Fatalf("cannot read the replay file: %s", err)
		}
		var r Replay
		if err := json.Unmarshal(data, &r); err != nil {
			t.Fatalf("cannot decode the replay file: %s", err)
		}
		if r.Property != p.ID || r.Sub != p.Sub {
			return
		}
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatalf("cannot decode the replay case: %s", err)
		}
		fmt.Printf("VF-REPLAY-START %s\n", name)
		stop := watchdog(name, limit)
		out := guard(p.Check, c)
		stop()
		if out.Err != nil && out.Known == "" {
			fmt.Printf("VF-REPLAY-FAIL %s: %s\n", name, out.Err)
			t.Fatalf("%s", out.Err)
		}
		if out.Known != "" {
			fmt.Printf("VF-REPLAY-KNOWN %s\n", out.Known)
		}
		fmt.Printf("VF-REPLAY-PASS %s\n", name)
		return
	}

	shard, shards := Shard(), envInt("VF_SHARDS", 1)
	total := p.Quick
	if Thorough() {
		total = p.Thorough
		if total == 0 {
			total = 10 * p.Quick
		}
	}
	if s := envInt("VF_SCALE", 100); s != 100 {
		total = total * s / 100
	}
	n := (total + shards - 1) / shards
	if n < 1 {
		n = 1
	}
	seed := uint64(envInt("VF_SEED", 1))
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s", seed, shard, name)
	rseed := h.Sum64() >> 1
	if rseed == 0 {
		rseed = 1
	}
	setFlag(t, "rapid.seed", strconv.FormatUint(rseed, 10))
	setFlag(t, "rapid.checks", strconv.Itoa(n))
	setFlag(t, "rapid.nofailfile", "true")
	setFlag(t, "rapid.shrinktime", "45s")

	res := &Result{Property: p.ID, Sub: p.Sub, Rule: p.Rule, Classes: map[string]int{}, Known: map[string]int{}, Target: n}
	seen := map[uint64]bool{}
	var lastFailCase []byte
	var lastFailErr string
	journal := filepath.Join(Dir(), fmt.Sprintf("cur.%s.%d.json", name, shard))
	start := time.Now()
	failing := false
	ok := t.Run("rapid", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := p.Gen(rt)
			cj := mustJSON(c)
			os.WriteFile(journal, cj, 0o644)
			stop := watchdog(name, limit)
			out := guard(p.Check, c)
			stop()
			if !failing { // shrinking re-runs are not counted
				res.Cases++
				if out.Evals == 0 {
					out.Evals = 1
				}
				res.Evaluations += out.Evals
				for _, cl := range out.Classes {
					res.Classes[cl]++
				}
				if out.NonTrivial {
					res.NonTrivial++
					hh := fnv.New64a()
					hh.Write(cj)
					if k := hh.Sum64(); !seen[k] {
						seen[k] = true
						if len(res.Samples) < 3 || (res.NonTrivial%97 == 0 && len(res.Samples) < 6) {
							if len(cj) > 6000 {
								cj2 := mustJSON(string(cj[:6000]) + "...")
								res.Samples = append(res.Samples, cj2)
							} else {
								res.Samples = append(res.Samples, cj)
							}
						}
					}
				}
			}
			if out.Known != "" {
				res.Known[out.Known]++
				return
			}
			if out.Err != nil {
				failing = true
				lastFailCase, lastFailErr = cj, out.Err.Error()
				rt.Fatalf("%s", firstLine(out.Err.Error()))
			}
		})
	})
	os.Remove(journal)
	res.WallS = time.Since(start).Seconds()
	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	if !ok {
		res.Failed = true
		if lastFailCase == nil {
			res.Error = "the generator or the harness failed (no case was rejected by the oracle)"
		} else {
			res.Error, res.Case = lastFailErr, lastFailCase
		}
	}
	if res.Cases < n && !res.Failed {
		res.Error = fmt.Sprintf("only %d of %d cases were run", res.Cases, n)
	}
	out := filepath.Join(Dir(), fmt.Sprintf("res.%s.%d.json", name, shard))
	if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
		t.Fatal(err)
	}
}

// guard turns a panic that reaches the check (from the code under test, or from an oracle that met a history it
// holds impossible) into a failure of the case.
func guard[C any](check func(C) Outcome, c C) (out Outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = Outcome{Err: fmt.Errorf("panic: %v\n%s", r, debug.Stack())}
		}
	}()
	return check(c)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func setFlag(t *testing.T, name, value string) {
	if err := flagSet(name, value); err != nil {
		t.Fatalf("cannot set -%s: %s", name, err)
	}
}

// watchdog ends the process if a single case runs for longer than limit: the journal then names the case.
func watchdog(name string, limit time.Duration) func() {
	timer := time.AfterFunc(limit, func() {
		fmt.Printf("VF-STUCK %s after %s\n", name, limit)
		dumpStacks()
		os.Exit(77)
	})
	return func() { timer.Stop() }
}
