package main

// Obligations that take long are decided by several processes: each loads the same source and takes
// obligations from a queue. What they find is merged; the result does not depend on the distribution.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

type task struct {
	law   *Law
	combo map[string]int
	n     int // index of the combination
}

type taskResult struct {
	Bad     *Finding
	Funcs   []string
	Bounded []string
	Calls   int
	Instrs  int
}

// decideAll decides the obligations of all laws.
func decideAll(w *World, id, tier string, laws []*Law, st *Stats, fs *[]Finding) {
	os.Unsetenv(budgetEnv)
	budgetEnd()
	var tasks []task
	for _, l := range laws {
		st.Laws++
		for i, c := range l.all(w) {
			tasks = append(tasks, task{l, c, i})
		}
	}
	out := make([]taskResult, len(tasks))
	start := time.Now()
	i := 0
	for ; i < len(tasks) && time.Since(start) < 6*time.Second; i++ {
		out[i] = runTask(w, tasks[i])
	}
	if i < len(tasks) {
		pool(id, tier, tasks, out, i)
	}
	for i, t := range tasks {
		r := out[i]
		st.Obligations++
		st.Samples = append(st.Samples, sampleName(t))
		for _, f := range r.Funcs {
			st.Funcs[f] = true
		}
		for _, f := range r.Bounded {
			st.Bounded[f] = true
		}
		st.Calls += r.Calls
		st.Instrs += r.Instrs
		if r.Bad != nil {
			*fs = append(*fs, *r.Bad)
		} else {
			st.Held++
		}
	}
}

func sampleName(t task) string {
	if c := comboStr(t.combo); c != "" {
		return t.law.Name + " " + c
	}
	return t.law.Name
}

// budgetEnd is the time at which a check stops deciding; what is left by then is undecided. Workers are told by the check.
func budgetEnd() time.Time {
	if n, err := strconv.ParseInt(os.Getenv(budgetEnv), 10, 64); err == nil {
		return time.Unix(n, 0)
	}
	limit := 480 * time.Second
	if deep {
		limit = 780 * time.Second
	}
	end := time.Now().Add(limit)
	os.Setenv(budgetEnv, strconv.FormatInt(end.Unix(), 10))
	return end
}

const budgetEnv = "VERIF_CHECK_END"

func runTask(w *World, t task) taskResult {
	st := newStats()
	limit := 150 * time.Second
	if t.n >= t.law.short {
		limit = 40 * time.Second
	}
	deadline = time.Now().Add(limit)
	if end := budgetEnd(); deadline.After(end) {
		deadline = end
	}
	if time.Now().After(deadline) {
		deadline = time.Time{}
		return lost(t, errors.New("the time of the check is over"))
	}
	bad := decideLaw(w, t.law, t.combo, st)
	deadline = time.Time{}
	if tooBig.Load() {
		C = NewCtx()
		debug.FreeOSMemory()
		tooBig.Store(false)
	}
	return taskResult{bad, keys(st.Funcs), keys(st.Bounded), st.Calls, st.Instrs}
}

// pool decides tasks[from:] in worker processes.
func pool(id, tier string, tasks []task, out []taskResult, from int) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if r := len(tasks) - from; n > r {
		n = r
	}
	var mu sync.Mutex
	next := from
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(tasks) {
			return -1
		}
		next++
		return next - 1
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var rd *bufio.Reader
			stop := func() {
				if cmd != nil {
					in.Close()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for i := take(); i >= 0; i = take() {
				if cmd == nil {
					cmd = exec.Command(os.Args[0], "-worker", id, tier)
					cmd.Stderr = os.Stderr
					in, _ = cmd.StdinPipe()
					so, _ := cmd.StdoutPipe()
					rd = bufio.NewReaderSize(so, 1<<20)
					if err := cmd.Start(); err != nil {
						cmd = nil
						out[i] = lost(tasks[i], err)
						continue
					}
				}
				fmt.Fprintf(in, "%s %d\n", tasks[i].law.Name, tasks[i].n)
				line, err := rd.ReadBytes('\n')
				if err == nil {
					err = json.Unmarshal(line, &out[i])
				}
				if err != nil {
					out[i] = lost(tasks[i], err)
					stop()
				}
			}
		}()
	}
	wg.Wait()
}

func lost(t task, err error) taskResult {
	return taskResult{Bad: &Finding{Rule: t.law.Name, Shape: comboStr(t.combo), Where: "-", Msg: "not decided: the analysis did not finish: " + err.Error(), Key: t.law.Name, Open: true}}
}

// worker decides the obligations named on its input.
func worker(id, tier string) {
	deep = tier == "thorough"
	w, err := loadWorld(repoDir(), probeSource(properties[id].files(id)...))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	byName := map[string]*Law{}
	for _, l := range w.lawsOf() {
		byName[l.Name] = l
	}
	sc := bufio.NewScanner(os.Stdin)
	o := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var name string
		var n int
		fmt.Sscan(sc.Text(), &name, &n)
		l := byName[name]
		r := runTask(w, task{l, l.all(w)[n], n})
		b, _ := json.Marshal(r)
		o.Write(b)
		o.WriteByte('\n')
		o.Flush()
	}
}
