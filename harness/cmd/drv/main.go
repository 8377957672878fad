// Command drv runs the check of one property: it builds the harness against /repo's current tree, runs the
// generated-input search in several processes, confirms any failure in a fresh process, and writes the evidence.
//
// exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check gave no answer.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
)

var (
	root    = envOr("VF_ROOT", "/verif")
	repo    = envOr("VF_REPO", "/repo")
	scratch string
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		die("usage: drv <property id>")
	}
	os.Exit(run(os.Args[1]))
}

func die(format string, args ...any) {
	fmt.Printf("CHECK-ERROR "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" && os.Getenv("VF_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func run(id string) int {
	p, ok := props[id]
	if !ok {
		die("unknown property %s", id)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	scratch, err = os.MkdirTemp("", "vf-"+id+"-")
	if err != nil {
		die("%s", err)
	}
	defer cleanup()
	os.Chmod(scratch, 0o755)

	env := append(os.Environ(), "VF_DIR="+scratch, "VF_TIER="+tier, "VF_REPO="+repo,
		"GINKGO_EDITOR_INTEGRATION=", "VF_SEED="+strconv.FormatInt(seed, 10))
	bin := filepath.Join(scratch, "checks.test")
	build(env, filepath.Join(root, "harness"), "go", "test", "-c", "-vet=off", "-o", bin, "./checks/"+p.Pkg)
	if p.CLI {
		build(env, repo, "go", "build", "-o", filepath.Join(scratch, "ginkgo"), "./ginkgo")
		build(env, filepath.Join(root, "harness"), "go", "test", "-c", "-vet=off", "-o", filepath.Join(scratch, "fixture.test"), "./fixture")
		build(env, filepath.Join(root, "harness"), "go", "test", "-c", "-vet=off", "-cover", "-covermode=atomic", "-o", filepath.Join(scratch, "fixture.cover.test"), "./fixture")
		env = append(env, "VF_FIXTURE_COVER="+filepath.Join(scratch, "fixture.cover.test"))
		env = append(env, "VF_GINKGO="+filepath.Join(scratch, "ginkgo"), "VF_FIXTURE="+filepath.Join(scratch, "fixture.test"))
	}

	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	caseLimit := 180 * time.Second

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		verdict, msg, _ := replay(env, bin, id, rp, limit)
		fmt.Printf("replay of %s: %s %s\n", rp, verdict, msg)
		switch verdict {
		case "fail":
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			return 1
		case "pass":
			return 0
		}
		return 2
	}

	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	type shardOut struct {
		err      error
		log      string
		timedOut bool
	}
	outs := make([]shardOut, shards)
	sem := make(chan bool, max(8, p.Par))
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			log, err, to := runBin(shardEnv(env, i, shards), bin, "^Test"+id+"_", limit)
			outs[i] = shardOut{err, log, to}
		}()
	}
	wg.Wait()

	// gather
	results := []vf.Result{}
	files, _ := filepath.Glob(filepath.Join(scratch, "res.*.json"))
	sort.Strings(files)
	shardOf := map[int]int{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		var r vf.Result
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			die("unreadable result %s: %s", f, err)
		}
		parts := strings.Split(filepath.Base(f), ".")
		shardOf[len(results)], _ = strconv.Atoi(parts[len(parts)-2])
		results = append(results, r)
	}

	violations := []string{}
	inconclusive := []string{}
	// failures that neither the case nor its whole shard shows again, by sub-check: a stall of the machine, or a
	// schedule that hardly ever happens. They are reported as such, unless many shards have one.
	type fluke struct{ path, err string }
	flukes := map[string][]fluke{}
	confirm := func(rep vf.Replay, at int) {
		path := saveReplay(id, rep)
		for try := 0; try < max(1, p.Retries); try++ {
			verdict, msg, stuck := replay(env, bin, id, path, limit)
			if verdict == "fail" || (stuck && verdict == "stuck") {
				if verdict == "stuck" {
					msg = "the case does not terminate (stuck again in a fresh process)"
				}
				fmt.Printf("%s\n", clip(rep.Error, 3000))
				fmt.Printf("confirmed in a fresh process: %s\n", clip(msg, 400))
				violations = append(violations, path)
				return
			}
			if verdict == "died" {
				fmt.Printf("the process running the case died again in a fresh process: %s\n", clip(msg, 2000))
				violations = append(violations, path)
				return
			}
		}
		// run the whole shard again: is it a property of the history of cases?
		os.Remove(filepath.Join(scratch, fmt.Sprintf("res.%s_%s.%d.json", id, rep.Sub, rep.Shard)))
		runBin(shardEnv(env, rep.Shard, shards), bin, "^Test"+id+"_"+rep.Sub+"$", limit)
		if b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("res.%s_%s.%d.json", id, rep.Sub, rep.Shard))); err == nil {
			var r vf.Result
			if json.Unmarshal(b, &r) == nil && r.Failed && r.Case != nil {
				rep.Mode = "shard"
				path = saveReplay(id, rep)
				fmt.Printf("%s\n(not reproduced by the single case, but by running the seeded shard again)\n", clip(rep.Error, 3000))
				violations = append(violations, path)
				return
			}
			if at >= 0 && !r.Failed && r.Error == "" && r.Evaluations > 0 {
				results[at] = r
				outs[rep.Shard].err = nil
				flukes[rep.Sub] = append(flukes[rep.Sub], fluke{path, rep.Error})
				return
			}
		}
		inconclusive = append(inconclusive, fmt.Sprintf("%s_%s: a failure was not reproduced (%s): %s", id, rep.Sub, path, clip(rep.Error, 1500)))
	}

	subFailed := map[string]int{}
	for i, r := range results {
		if r.Failed {
			if r.Case == nil {
				inconclusive = append(inconclusive, fmt.Sprintf("%s_%s: %s\n%s", r.Property, r.Sub, r.Error, clip(outs[shardOf[i]].log, 3000)))
				continue
			}
			if subFailed[r.Sub]++; subFailed[r.Sub] > 1 && len(violations) > 0 {
				continue
			}
			confirm(vf.Replay{Property: id, Sub: r.Sub, Error: r.Error, Mode: "case", Seed: seed, Shard: shardOf[i], Shards: shards, Tier: tier, Case: r.Case}, i)
		} else if r.Error != "" {
			inconclusive = append(inconclusive, fmt.Sprintf("%s_%s: %s", r.Property, r.Sub, r.Error))
		}
	}
	// shards that died or were stuck: the journal names the case
	died := 0
	for i, o := range outs {
		js, _ := filepath.Glob(filepath.Join(scratch, fmt.Sprintf("cur.%s_*.%d.json", id, i)))
		for _, j := range js {
			died++
			if died > 1 {
				continue
			}
			sub := strings.TrimPrefix(strings.Split(filepath.Base(j), ".")[1], id+"_")
			b, _ := os.ReadFile(j)
			what := "the process running the case died"
			if strings.Contains(o.log, "VF-STUCK") {
				what = fmt.Sprintf("the case did not finish within %s", caseLimit)
			}
			os.Remove(j)
			confirm(vf.Replay{Property: id, Sub: sub, Error: what + "\n" + tail(o.log, 3000), Mode: "case", Seed: seed, Shard: i, Shards: shards, Tier: tier, Case: b}, -1)
		}
		if len(js) == 0 {
			if o.timedOut {
				inconclusive = append(inconclusive, fmt.Sprintf("shard %d ran out of time", i))
			} else if o.err != nil && !anyFailed(results) {
				inconclusive = append(inconclusive, fmt.Sprintf("shard %d: %s\n%s", i, o.err, tail(o.log, 2000)))
			}
		}
	}
	notes := []string{}
	for sub, fs := range flukes {
		for _, f := range fs {
			notes = append(notes, fmt.Sprintf("%s_%s: a failure was not reproduced, neither by the case (%s) nor by running its shard again: %s", id, sub, f.path, clip(f.err, 1500)))
		}
		if len(fs) >= max(3, shards/2) {
			violations = append(violations, fs[0].path)
		}
	}
	sort.Strings(notes)
	for _, n := range notes {
		fmt.Printf("NOTE %s\n", n)
	}
	if len(results) == 0 && len(violations) == 0 {
		log := ""
		if len(outs) > 0 {
			log = outs[0].log
		}
		inconclusive = append(inconclusive, "no sub-check ran\n"+tail(log, 2000))
	}

	known := map[string]int{}
	for _, r := range results {
		for k, n := range r.Known {
			known[k] += n
		}
	}
	writeEvidence(id, tier, seed, p, results, known, violations, inconclusive, notes, time.Since(start))

	for _, f := range knownFindings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d generated cases)\n", id, f[1], known[f[0]])
		delete(known, f[0])
	}
	for k := range known {
		inconclusive = append(inconclusive, "a case was classified as known finding "+k+" which the known-findings file does not list")
	}
	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		for _, m := range inconclusive {
			fmt.Printf("CHECK-ERROR %s\n", m)
		}
		return 2
	}
	total, nt := 0, 0
	for _, r := range results {
		total += r.Evaluations
		nt += r.NonTrivial
	}
	fmt.Printf("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs\n", id, total, nt, time.Since(start).Seconds())
	return 0
}

func anyFailed(rs []vf.Result) bool {
	for _, r := range rs {
		if r.Failed {
			return true
		}
	}
	return false
}

func shardEnv(env []string, i, n int) []string {
	return append(append([]string{}, env...), fmt.Sprintf("VF_SHARD=%d", i), fmt.Sprintf("VF_SHARDS=%d", n))
}

func build(env []string, dir string, args ...string) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		die("build failed (%s): %s\n%s", strings.Join(args, " "), err, clip(string(out), 4000))
	}
}

type limitedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 8<<20 {
		rest := append([]byte{}, l.b.Bytes()[4<<20:]...)
		l.b.Reset()
		l.b.Write(rest)
	}
	return l.b.Write(p)
}

func runBin(env []string, bin, pattern string, limit time.Duration) (string, error, bool) {
	cmd := exec.Command(bin, "-test.run", pattern, "-test.timeout", "0", "-test.v")
	cwd, _ := os.MkdirTemp(scratch, "cwd")
	cmd.Dir = cwd
	cmd.Env = append(env, "TMPDIR="+cwd)
	buf := &limitedBuffer{}
	cmd.Stdout, cmd.Stderr = buf, buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 10 * time.Second
	if err := cmd.Start(); err != nil {
		return "", err, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	os.RemoveAll(cwd)
	return buf.b.String(), err, timedOut
}

// replay runs a saved case in a fresh process.
func replay(env []string, bin, id, path string, limit time.Duration) (verdict, msg string, stuck bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("cannot read %s: %s", path, err)
	}
	var r vf.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("cannot decode %s: %s", path, err)
	}
	if r.Mode == "shard" {
		e := append(shardEnv(env, r.Shard, r.Shards), fmt.Sprintf("VF_SEED=%d", r.Seed), "VF_TIER="+r.Tier)
		runBin(e, bin, "^Test"+id+"_"+r.Sub+"$", limit)
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("res.%s_%s.%d.json", id, r.Sub, r.Shard)))
		var res vf.Result
		if err != nil || json.Unmarshal(b, &res) != nil {
			return "none", "the shard gave no result", false
		}
		if res.Failed && res.Case != nil {
			return "fail", res.Error, false
		}
		return "pass", "", false
	}
	log, err, to := runBin(append(env, "VF_REPLAY="+path), bin, "^Test"+id+"_"+r.Sub+"$", limit)
	switch {
	case strings.Contains(log, "VF-REPLAY-FAIL"):
		i := strings.Index(log, "VF-REPLAY-FAIL")
		return "fail", clip(log[i:], 3000), false
	case strings.Contains(log, "VF-REPLAY-PASS"):
		return "pass", "", false
	case strings.Contains(log, "VF-STUCK") || to:
		return "stuck", "", true
	case strings.Contains(log, "VF-REPLAY-START") && err != nil:
		return "died", tail(log, 3000), false
	}
	return "none", tail(log, 2000), false
}

func saveReplay(id string, r vf.Replay) string {
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	h := sha256.Sum256(r.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", id, r.Sub, hex.EncodeToString(h[:5])))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("cannot save the replay file: %s", err)
	}
	return path
}

// knownFindings reads the committed known-findings file: lines "known: property=<id> key=<key> <what fails>".
func knownFindings(id string) [][2]string {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	out := [][2]string{}
	for _, line := range strings.Split(string(b), "\n") {
		prefix := "known: property=" + id + " key="
		if !strings.HasPrefix(line, prefix) {
			continue
		}
		rest := strings.TrimPrefix(line, prefix)
		key, what, _ := strings.Cut(rest, " ")
		out = append(out, [2]string{key, what})
	}
	return out
}

func writeEvidence(id, tier string, seed int64, p prop, results []vf.Result, known map[string]int, violations, inconclusive, notes []string, wall time.Duration) {
	type sub struct {
		Evaluations, Cases, NonTrivial, Distinct int
		Rule                                     string
		Classes                                  map[string]int
	}
	subs := map[string]*sub{}
	hashes := map[string]map[uint64]bool{}
	samples := []any{}
	names := []string{}
	for _, r := range results {
		s := subs[r.Sub]
		if s == nil {
			s = &sub{Rule: r.Rule, Classes: map[string]int{}}
			subs[r.Sub] = s
			hashes[r.Sub] = map[uint64]bool{}
			names = append(names, r.Sub)
		}
		s.Evaluations += r.Evaluations
		s.Cases += r.Cases
		s.NonTrivial += r.NonTrivial
		for k, n := range r.Classes {
			s.Classes[k] += n
		}
		for _, h := range r.Hashes {
			hashes[r.Sub][h] = true
		}
		for i, c := range r.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"sub": r.Sub, "case": c})
			}
		}
	}
	evals, distinct := 0, 0
	rules := []string{}
	sort.Strings(names)
	for _, n := range names {
		subs[n].Distinct = len(hashes[n])
		evals += subs[n].Evaluations
		distinct += subs[n].Distinct
		rules = append(rules, n+": "+subs[n].Rule)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " | "), "samples": samples,
			"subchecks": subs, "known_finding_cases": known, "inconclusive": inconclusive, "not_reproduced": notes,
		},
		"violations": len(violations),
		"wall_s":     wall.Seconds(),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("cannot encode the evidence: %s", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
		die("cannot write the evidence: %s", err)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
