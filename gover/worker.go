package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// A check made of independent jobs (one function each) runs them in worker processes: the term
// tables of a process are shared by everything it proves, so threads would not do.

// jobLimit: a job that takes longer has not decided its obligations.
var jobLimit = 240 * time.Second

type Job struct {
	Name string
	Drop []string // contracts not to be used
}

type JobResult struct {
	Obs     []*Obligation
	Fns     map[string]bool
	Inlined map[string]bool
	Assumed map[string]bool
	Notes   []string
	Paths   int
	Q, Hits int
	Unk     int
	Time    time.Duration
	Stats   map[string]int
	Wall    time.Duration
	Err     string
}

// jobFns: for a property decided by jobs, the function that runs one of them.
var jobFns = map[string]func(P *Program, rep *Report, j Job){}

func runOne(P *Program, prop string, j Job) (r *JobResult) {
	rep := NewReport(prop)
	defer rep.sol.Close()
	r = &JobResult{}
	t0 := time.Now()
	defer func() {
		if p := recover(); p != nil {
			r.Err = fmt.Sprintf("internal error: %v\n%s", p, debug.Stack())
		}
		r.Obs, r.Fns, r.Inlined, r.Assumed, r.Notes, r.Paths = rep.obs, rep.fns, rep.inlined, rep.assumed, rep.notes, rep.paths
		r.Q, r.Hits, r.Unk, r.Time, r.Stats = rep.sol.Q, rep.sol.Hits, rep.sol.Unk, rep.sol.Time, rep.stats
		r.Wall = time.Since(t0)
	}()
	jobFns[prop](P, rep, j)
	return r
}

// workerMain: gover -worker PROP; jobs come on stdin and results go to stdout, as JSON lines.
func workerMain(prop string) {
	debug.SetGCPercent(400)
	P := Load()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			return
		}
		r := runOne(P, prop, j)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// runJobs runs the jobs and merges their results into rep; it returns the results by job name.
func runJobs(rep *Report, jobs []Job) map[string]*JobResult {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(jobs) {
		n = len(jobs)
	}
	self, _ := os.Executable()
	q := make(chan Job, len(jobs))
	for _, j := range jobs {
		q <- j
	}
	close(q)
	res := map[string]*JobResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			stop := func() {
				if cmd != nil {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for j := range q {
				if cmd == nil {
					cmd = exec.Command(self, "-worker", rep.prop)
					cmd.Stderr = os.Stderr
					in, _ = cmd.StdinPipe()
					o, _ := cmd.StdoutPipe()
					out = bufio.NewReaderSize(o, 1<<20)
					if err := cmd.Start(); err != nil {
						mu.Lock()
						res[j.Name] = &JobResult{Err: err.Error()}
						mu.Unlock()
						cmd = nil
						continue
					}
				}
				b, _ := json.Marshal(j)
				in.Write(append(b, '\n'))
				t := time.AfterFunc(jobLimit, func() { cmd.Process.Kill() })
				line, err := out.ReadBytes('\n')
				t.Stop()
				r := &JobResult{}
				if err == nil {
					err = json.Unmarshal(line, r)
				}
				if err != nil {
					r = &JobResult{Err: "the worker ended: " + err.Error()}
					stop()
				}
				if os.Getenv("GOVER_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%-40s %6.1fs %6d queries %5d obligations\n", j.Name, r.Wall.Seconds(), r.Q, len(r.Obs))
				}
				mu.Lock()
				res[j.Name] = r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res
}

func (r *Report) merge(j Job, o *JobResult) {
	r.obs = append(r.obs, o.Obs...)
	if o.Err != "" {
		r.obs = append(r.obs, &Obligation{Fn: j.Name, Kind: "verifier", Detail: "the verifier could not process the code", Why: o.Err})
	}
	for k := range o.Fns {
		r.fns[k] = true
	}
	for k := range o.Inlined {
		r.inlined[k] = true
	}
	for k := range o.Assumed {
		r.assumed[k] = true
	}
	have := map[string]bool{}
	for _, n := range r.notes {
		have[n] = true
	}
	for _, n := range o.Notes {
		if !have[n] {
			r.notes = append(r.notes, n)
		}
	}
	r.paths += o.Paths
	r.sol.Q += o.Q
	r.sol.Hits += o.Hits
	r.sol.Unk += o.Unk
	r.sol.Time += o.Time
	for k, v := range o.Stats {
		r.stats[k] += v
	}
}

func (r *JobResult) failed() bool {
	if r.Err != "" {
		return true
	}
	for _, o := range r.Obs {
		if !o.OK {
			return true
		}
	}
	return false
}

// decideJobs runs the jobs; when some fail whose functions have contracts of their own choosing
// (optional), it tries once more with those functions inlined instead.
func decideJobs(rep *Report, mk func(drop []string) []Job, optional func(job string) string) {
	jobs := mk(nil)
	res := runJobs(rep, jobs)
	var drop []string
	for _, j := range jobs {
		if res[j.Name].failed() {
			if n := optional(j.Name); n != "" {
				drop = append(drop, n)
			}
		}
	}
	if len(drop) > 0 && os.Getenv("GOVER_NOREPLAY") == "" && !openFindings() {
		// an input on which the code fails settles it
		var viol []*Obligation
		for _, j := range jobs {
			for _, o := range res[j.Name].Obs {
				if !o.OK {
					viol = append(viol, o)
				}
			}
		}
		rep.input, rep.searched = replaySearch(rep.prop, viol, rep.seed), true
	}
	if len(drop) > 0 && rep.input == "" && os.Getenv("GOVER_NORETRY") == "" {
		rep.note("contracts replaced by the functions' bodies: " + strings.Join(drop, ", "))
		jobs2 := mk(drop)
		res2 := runJobs(rep, jobs2)
		bad := false
		for _, r := range res2 {
			bad = bad || r.failed()
		}
		if !bad {
			jobs, res = jobs2, res2
		}
	}
	for _, j := range jobs {
		rep.merge(j, res[j.Name])
	}
}
