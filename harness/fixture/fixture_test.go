// Package fixture is the suite that the checks of the ginkgo command run: a test binary that does what behaviour.json in
// its working directory says, and leaves a log of what it did.
package fixture

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2"
)

type spec struct {
	Text string
	Do   string // pass, fail, skip, panic, pending, exit0, exit1, kill, block
	On   int    // only on this run (from 1); 0: on all of them
	F    bool   // focused
	Ms   int
}

type behaviour struct {
	Name  string
	Plain bool // no Ginkgo suite
	Fail  int  // plain: fails on this run; -1 on all
	Specs []spec
}

func note(format string, args ...any) {
	f, err := os.OpenFile("ran.log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(f, format+"\n", args...)
	f.Close()
}

func TestFixture(t *testing.T) {
	var b behaviour
	data, err := os.ReadFile("behaviour.json")
	if err == nil {
		err = json.Unmarshal(data, &b)
	}
	if err != nil {
		t.Fatal(err)
	}
	proc := 0
	if !b.Plain {
		s, _ := ginkgo.GinkgoConfiguration()
		proc = s.ParallelProcess
	}
	me := fmt.Sprintf("run %d\n", proc)
	log, _ := os.ReadFile("ran.log")
	run := strings.Count(string(log), me) + 1
	f, err := os.OpenFile("ran.log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666)
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprintf(f, "%sat %d\n", me, time.Now().UnixNano())
	f.Close()
	if b.Plain {
		if b.Fail == -1 || b.Fail == run {
			t.Fatal("a plain failure")
		}
		return
	}
	for k, s := range b.Specs {
		args := []any{}
		if s.F {
			args = append(args, ginkgo.Focus)
		}
		if s.Do == "pending" {
			args = append(args, ginkgo.Pending)
		}
		if s.Do == "block" {
			ginkgo.It(s.Text, append(args, func(ctx ginkgo.SpecContext) {
				note("spec %d %s %d", run, s.Text, proc)
				if s.On == 0 || s.On == run {
					<-ctx.Done()
				}
			})...)
			continue
		}
		ginkgo.It(s.Text, append(args, func() {
			note("spec %d %s %d", run, s.Text, proc)
			Mark(k)
			fmt.Println("said by " + s.Text)
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
			if s.On != 0 && s.On != run {
				return
			}
			switch s.Do {
			case "fail":
				ginkgo.Fail("failed as told")
			case "panic":
				panic("panicked as told")
			case "skip":
				ginkgo.Skip("skipped as told")
			case "exit0":
				os.Exit(0)
			case "exit1":
				os.Exit(1)
			case "kill":
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
			}
		})...)
	}
	ginkgo.RunSpecs(t, b.Name)
}
