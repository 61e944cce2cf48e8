// Command vh runs bounded histories of plainkv against a reference model.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var scratch string

type result struct {
	Sc     Scenario
	Evals  int
	Shapes int
	MaxH   int
	Fail   *failure
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	worker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "run the scenario of a replay file")
	budget := flag.Int("budget", 60, "seconds")
	jobs := flag.Int("jobs", 8, "worker processes")
	flag.StringVar(&scratch, "scratch", "", "")
	flag.Parse()
	if *worker {
		work()
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	drive(*prop, *tier, *seed, *out, *budget, *jobs)
}

func doReplay(f string) int {
	b, err := ioutil.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp struct{ Scenario Scenario }
	if err := json.Unmarshal(b, &rp); err != nil || rp.Scenario.Kind == "" {
		fmt.Println("no scenario in", f)
		return 2
	}
	d, _ := ioutil.TempDir("", "vh")
	defer os.RemoveAll(d)
	scratch = d
	debug.SetMaxStack(64 << 20)
	ev, _, _, fl := run(rp.Scenario, func() {})
	if fl != nil {
		fmt.Println("FAIL", fl.Msg)
		for _, o := range fl.Ops {
			fmt.Println("   ", o)
		}
		return 1
	}
	fmt.Println("ok", ev, "evaluations")
	return 0
}

func work() {
	debug.SetMaxStack(64 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var sc Scenario
		if json.Unmarshal(in.Bytes(), &sc) != nil {
			continue
		}
		last := time.Now()
		beat := func() {
			if time.Since(last) > time.Second {
				last = time.Now()
				fmt.Fprintln(w, "beat")
				w.Flush()
			}
		}
		r := result{Sc: sc}
		var sh map[string]bool
		r.Evals, sh, r.MaxH, r.Fail = run(sc, beat)
		r.Shapes = len(sh)
		b, _ := json.Marshal(r)
		fmt.Fprintln(w, string(b))
		w.Flush()
	}
}

func drive(prop, tier string, seed int64, out string, budget, jobs int) {
	start := time.Now()
	list := plan(prop, tier, seed)
	tmp, err := ioutil.TempDir("", "vh")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	var mu sync.Mutex
	next := 0
	var results []result
	var failed *result
	over := make(chan struct{}) // closed at the first failure
	fails := func(r *result) {
		mu.Lock()
		if failed == nil {
			failed = r
			close(over)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	deadline := start.Add(time.Duration(budget) * time.Second)
	hang := 30 * time.Second
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprint(j))
			os.Mkdir(dir, 0700)
			for {
				cmd := exec.Command(self, "-worker", "-scratch", dir)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=none")
				stdin, _ := cmd.StdinPipe()
				stdout, _ := cmd.StdoutPipe()
				var errb strings.Builder
				cmd.Stderr = &errb
				if err := cmd.Start(); err != nil {
					panic(err)
				}
				lines := make(chan string, 16)
				go func() {
					sc := bufio.NewScanner(stdout)
					sc.Buffer(make([]byte, 1<<20), 1<<20)
					for sc.Scan() {
						lines <- sc.Text()
					}
					close(lines)
				}()
				dead := false
				for !dead {
					mu.Lock()
					if next >= len(list) || failed != nil || time.Now().After(deadline) {
						mu.Unlock()
						stdin.Close()
						cmd.Process.Kill()
						cmd.Wait()
						return
					}
					sc := list[next]
					next++
					mu.Unlock()
					b, _ := json.Marshal(sc)
					fmt.Fprintln(stdin, string(b))
					t := time.NewTimer(hang)
					hard := time.NewTimer(time.Until(deadline.Add(15 * time.Second)))
				wait:
					for {
						select {
						case l, ok := <-lines:
							if !ok {
								cmd.Wait()
								msg := strings.TrimSpace(errb.String())
								if i := strings.IndexByte(msg, '\n'); i >= 0 {
									msg = msg[:i]
								}
								if msg != "" { // else killed from outside: undecided
									fails(&result{Sc: sc, Fail: &failure{Msg: "the process died: " + msg}})
								}
								dead = true
								break wait
							}
							if l == "beat" {
								if !t.Stop() {
									select {
									case <-t.C:
									default:
									}
								}
								t.Reset(hang)
								continue
							}
							var r result
							if json.Unmarshal([]byte(l), &r) != nil {
								continue
							}
							mu.Lock()
							results = append(results, r)
							mu.Unlock()
							if r.Fail != nil {
								fails(&r)
							}
							break wait
						case <-over:
							cmd.Process.Kill()
							cmd.Wait()
							return
						case <-hard.C:
							// out of time: what is under way stays undecided
							cmd.Process.Kill()
							cmd.Wait()
							return
						case <-t.C:
							cmd.Process.Kill()
							cmd.Wait()
							fails(&result{Sc: sc, Fail: &failure{Msg: "no progress: an operation does not end"}})
							dead = true
							break wait
						}
					}
					t.Stop()
					hard.Stop()
				}
			}
		}(j)
	}
	wg.Wait()
	evals, maxH := 0, 0
	var samples []string
	distinct := map[string]bool{}
	for _, r := range results {
		evals += r.Evals
		if r.MaxH > maxH {
			maxH = r.MaxH
		}
		distinct[fmt.Sprint(r.Sc)] = true
		if len(samples) < 5 {
			samples = append(samples, fmt.Sprintf("%v: %d evaluations", r.Sc, r.Evals))
		}
	}
	sort.Strings(samples)
	res := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "strict": strict,
		"scenarios_planned": len(list), "scenarios_run": len(results), "evaluations": evals,
		"max_height_or_dirs": maxH, "samples": samples, "wall_s": time.Since(start).Seconds(),
	}
	if failed != nil {
		res["fail"] = map[string]interface{}{"Scenario": failed.Sc, "Msg": failed.Fail.Msg, "Ops": failed.Fail.Ops}
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if out != "" {
		ioutil.WriteFile(out, b, 0644)
	} else {
		fmt.Println(string(b))
	}
	if failed != nil {
		os.Exit(1)
	}
}
