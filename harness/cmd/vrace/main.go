// vrace runs the workloads of the other monitors over race-instrumented
// programs and judges the race detector's reports and crashes.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vharness/lib/mon"
)

type load struct {
	prog, id string
	scale    int // share of the quick workload
}

// heavy loads use all cores; the others mostly wait
var quick = [][]load{
	{{"vct", "C17", 1}, {"vct", "C20", 6}},
	{{"vct", "C01", 4}, {"vct", "C03", 4}, {"vct", "C04", 2}, {"vct", "C22", 3}},
	{{"vstore", "C17", 1}, {"vstore", "C10", 5}, {"vstore", "C07", 6}, {"vstore", "C08", 2}, {"vstore", "C06", 12}},
	{{"vcrl", "C17", 1}, {"vcrl", "C11", 2}, {"vcrl", "C12", 4}, {"vcrl", "C19", 4}, {"vcrl", "C14", 6}, {"vcrl", "C15", 6}},
}

func selftest() {
	x := 0
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { x++; wg.Done() }()
	}
	wg.Wait()
	fmt.Println(x)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrace C17")
		os.Exit(2)
	}
	if os.Args[1] == "selftest" {
		selftest()
		return
	}
	mon.Supervise(os.Args[1])
	run := mon.New(os.Args[1])
	c17(run)
	os.Exit(run.Finish())
}

var bin = os.Getenv("VH_BIN")

// report is one report of the race detector.
type report struct{ where, text string }

var frame = regexp.MustCompile(`^\s+(\S+):(\d+)( \+0x[0-9a-f]+)?$`)

// parse splits a log into reports; where lists, for both accesses, the
// innermost function of the code under test.
func parse(b []byte, root string) (out []report, others int) {
	for _, blk := range strings.Split(string(b), "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var sites []string
		ours := false
		for _, sec := range strings.Split(blk, "\n\n") {
			lines := strings.Split(sec, "\n")
			access := false
			for i, l := range lines {
				if regexp.MustCompile(`^(Read|Write|Previous read|Previous write|Previous atomic|Atomic)\b.*by (main )?goroutine|^(Read|Write|Previous).* by `).MatchString(l) {
					access = true
					continue
				}
				if !access {
					continue
				}
				m := frame.FindStringSubmatch(l)
				if m == nil || i == 0 {
					continue
				}
				if strings.HasPrefix(m[1], root+"/go/") {
					sites = append(sites, strings.TrimSuffix(strings.TrimSpace(lines[i-1]), "()")+" ("+strings.TrimPrefix(m[1], root+"/")+")")
					ours = true
					break
				}
			}
		}
		if !ours {
			others++
			continue
		}
		sort.Strings(sites)
		out = append(out, report{strings.Join(sites, " / "), blk})
	}
	return
}

var faults = regexp.MustCompile(`fatal error: |panic: runtime error|concurrent map|SIGSEGV|send on closed channel|close of closed channel|negative WaitGroup|all goroutines are asleep`)

func c17(run *mon.Run) {
	run.Rule = "one evaluation per execution of a race-instrumented program under a workload; distinct ones differ in program and workload"
	run.Assume = []string{"the race detector sees the schedules that happen; a race needs both accesses to be executed, not to collide"}
	// the detector works here
	logs := filepath.Join(run.Scratch, "race")
	os.MkdirAll(logs, 0755)
	self := exec.Command(filepath.Join(bin, "vrace"), "selftest")
	self.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(run.Scratch, "self")+" exitcode=0")
	self.Run()
	if m, _ := filepath.Glob(filepath.Join(run.Scratch, "self.*")); len(m) == 0 {
		mon.Infra("the race detector does not report a race")
	}
	rounds := run.Pick(1, 6)
	budget := time.Duration(run.Pick(300, 2400)) * time.Second
	t0 := time.Now()
	var mu sync.Mutex
	seen := map[string]int{}
	done := 0
	for r := 0; r < rounds && time.Since(t0) < budget; r++ {
		var wg sync.WaitGroup
		for _, lane := range quick {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, l := range lane {
					if left := budget - time.Since(t0); left > 5*time.Second {
						one(run, l, r, logs, left)
						mu.Lock()
						done++
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
	}
	files, _ := filepath.Glob(filepath.Join(logs, "*"))
	others := 0
	for _, f := range files {
		b, _ := os.ReadFile(f)
		rs, o := parse(b, mon.RepoDir)
		others += o
		for _, x := range rs {
			if seen[x.where]++; seen[x.where] == 1 {
				run.Violation("race "+x.where, "data race: "+x.where, x.text)
			}
		}
	}
	run.Extra("race_reports", seen)
	run.Count("workloads run", done)
	run.Count("race reports", len(seen))
	run.Count("race reports outside the code under test", others)
}

func one(run *mon.Run, l load, round int, logs string, left time.Duration) {
	name := l.prog + " " + l.id
	dir := filepath.Join(run.Scratch, fmt.Sprintf("%s-%s-%d", l.prog, l.id, round))
	os.MkdirAll(dir, 0755)
	if b, err := os.ReadFile(filepath.Join(mon.VerifDir, "KNOWN_FINDINGS.txt")); err == nil {
		os.WriteFile(filepath.Join(dir, "KNOWN_FINDINGS.txt"), b, 0644)
	}
	runlog := filepath.Join(dir, "runs")
	var env []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k != "VH_CHILD" && k != "VH_SCRATCH" && k != "VERIF_DIR" && k != "VERIF_SEED" && k != "VERIF_TIER" && k != "TMPDIR" {
			env = append(env, e)
		}
	}
	scale := l.scale
	if run.Thorough() {
		scale = 1
	}
	env = append(env, "VERIF_DIR="+dir, fmt.Sprintf("VERIF_SEED=%d", run.Seed+int64(1000*round)), "VERIF_TIER=quick", fmt.Sprintf("VH_SCALE=%d", scale),
		"VH_RUNLOG="+runlog, "TMPDIR="+dir, "GORACE=log_path="+filepath.Join(logs, fmt.Sprintf("%s-%s", l.prog, l.id))+" halt_on_error=0 exitcode=0 history_size=3")
	c := exec.Command(filepath.Join(bin, l.prog), l.id)
	c.Env = env
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.WaitDelay = 2 * time.Second
	if err := c.Start(); err != nil {
		mon.Infra("%v", err)
	}
	timer := time.AfterFunc(left, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	c.Wait()
	timer.Stop()
	if c.ProcessState.ExitCode() == 2 {
		run.Count("workloads that ended early", 1)
		fmt.Fprintf(os.Stderr, "%s ended early: %s\n", name, tail(out.String()))
	}
	b, _ := os.ReadFile(runlog)
	for _, p := range strings.Fields(string(b)) {
		switch p {
		case "ct-fetch", "commit", "aggregate-known", "aggregate-crls", "get-mozilla-issuers":
			run.Count("race-instrumented runs of "+p, 1)
			run.Eval(p + " under " + name)
		}
	}
	// what a workload itself says about crashes of the programs
	vs, _ := filepath.Glob(filepath.Join(dir, "replay", "*.json"))
	for _, v := range vs {
		b, _ := os.ReadFile(v)
		var x struct {
			Key, Description string
			Detail           json.RawMessage
		}
		if json.Unmarshal(b, &x) != nil {
			continue
		}
		all := x.Description + string(x.Detail)
		if m := faults.FindString(all); m != "" && strings.Contains(all, "goroutine ") {
			run.Violation("fault "+m, name+": a program crashed with a runtime fault: "+x.Description, json.RawMessage(b))
		}
	}
	os.RemoveAll(dir)
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}
