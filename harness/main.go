package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Sig      string `json:"sig,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(verif string) []Finding {
	var out struct {
		Findings []Finding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return out.Findings
}

func main() {
	var (
		prop   = flag.String("prop", "", "property id")
		tier   = flag.String("tier", "quick", "")
		seed   = flag.Uint64("seed", 1, "")
		verif  = flag.String("verif", "/verif", "")
		worker = flag.Int("worker", -1, "")
		nw     = flag.Int("n", 8, "workers")
		dir    = flag.String("dir", "", "")
		cases  = flag.Int("cases", 0, "override")
		replay = flag.String("replay", "", "replay file")
		one    = flag.Int("case", -1, "run one case in process")
		isRace = flag.Bool("israce", false, "print whether the property wants the race build")
		list   = flag.Bool("list", false, "")
	)
	flag.Parse()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *one = v.Property, v.Tier, v.Seed, v.Case
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isRace {
		fmt.Println(p.Race)
		return
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	known := map[string]bool{}
	var listed []Finding
	for _, f := range loadFindings(*verif) {
		if f.Status == "known" && f.Property == p.ID {
			known[f.Sig] = true
			listed = append(listed, f)
		}
	}
	if *one >= 0 {
		runtime.GOMAXPROCS(p.Procs)
		tmp, _ := os.MkdirTemp("", "zv")
		defer os.RemoveAll(tmp)
		w := &Worker{prop: p, tier: *tier, seed: *seed, n: 1, dir: tmp, sum: newSummary(), known: known, verbose: true}
		w.curCase.Store(-1)
		go w.watchdog()
		c := w.newCase(*one)
		w.cur = c
		w.curStart.Store(cpuNow())
		w.curCase.Store(int64(*one))
		v := w.runCase(c)
		w.curCase.Store(-1)
		if v == nil {
			fmt.Printf("case %d of %s: property held\n", *one, p.ID)
			for _, t := range c.trace {
				fmt.Println("   ", t)
			}
			return
		}
		w.report(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *replay)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if *worker >= 0 {
		runtime.GOMAXPROCS(p.Procs)
		debug.SetGCPercent(200)
		f, err := os.Create(fmt.Sprintf("%s/prog.%d", *dir, *worker))
		if err != nil {
			os.Exit(2)
		}
		w := &Worker{prop: p, tier: *tier, seed: *seed, idx: *worker, n: *nw, dir: *dir, sum: newSummary(), known: known, progress: f}
		w.curCase.Store(-1)
		if w.loop(n) > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(supervise(p, *tier, *seed, *verif, *nw, n, *cases, listed))
}

type wres struct {
	code   int
	stderr string
	last   int
	killed bool
}

func supervise(p *Prop, tier string, seed uint64, verif string, nw, n, override int, listed []Finding) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "zverif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 5 * time.Hour
	}
	if nw > n {
		nw = n
	}
	self, _ := os.Executable()
	res := make([]wres, nw)
	var wg sync.WaitGroup
	// Once a worker has failed, the others get a few more seconds.
	stop := make(chan struct{})
	var stopOnce sync.Once
	failed := func() {
		stopOnce.Do(func() { time.AfterFunc(8*time.Second, func() { close(stop) }) })
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-verif", verif,
				"-worker", strconv.Itoa(i), "-n", strconv.Itoa(nw), "-dir", dir, "-cases", strconv.Itoa(override)}
			cmd := exec.Command(self, args...)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOTRACEBACK=all")
			errf, _ := os.Create(fmt.Sprintf("%s/stderr.%d", dir, i))
			cmd.Stderr = errf
			cmd.Stdout = errf
			if err := cmd.Start(); err != nil {
				res[i].code = 2
				return
			}
			t := time.AfterFunc(limit, func() { res[i].killed = true; cmd.Process.Kill() })
			ended := make(chan struct{})
			go func() {
				select {
				case <-stop:
					res[i].killed = true
					cmd.Process.Kill()
				case <-ended:
				}
			}()
			err := cmd.Wait()
			close(ended)
			t.Stop()
			if err != nil {
				failed()
			}
			errf.Close()
			if err != nil {
				res[i].code = cmd.ProcessState.ExitCode()
				if res[i].code < 0 {
					res[i].code = 200
				}
			}
			b, _ := os.ReadFile(fmt.Sprintf("%s/stderr.%d", dir, i))
			if len(b) > 1<<20 {
				b = b[:1<<20]
			}
			res[i].stderr = string(b)
			res[i].last = -1
			if b, err := os.ReadFile(fmt.Sprintf("%s/prog.%d", dir, i)); err == nil {
				if v, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil {
					res[i].last = v
				}
			}
		}(i)
	}
	wg.Wait()

	total := newSummary()
	var viols []*Violation
	inconclusive := ""
	for i := range res {
		b, err := os.ReadFile(fmt.Sprintf("%s/sum.%d", dir, i))
		if err == nil {
			s := newSummary()
			if json.Unmarshal(b, s) == nil {
				total.Evals += s.Evals
				total.Cases += s.Cases
				for k, v := range s.Counters {
					total.Counters[k] += v
				}
				for k, v := range s.Maxes {
					if total.Maxes[k] < v {
						total.Maxes[k] = v
					}
				}
				for k := range s.Distinct {
					total.Distinct[k] = true
				}
				for k, m := range s.States {
					if total.States[k] == nil {
						total.States[k] = map[uint64]bool{}
					}
					for h := range m {
						total.States[k][h] = true
					}
				}
				for k, v := range s.Known {
					total.Known[k] += v
				}
				if len(total.Samples) < 8 {
					total.Samples = append(total.Samples, s.Samples...)
				}
			}
		}
		vb, _ := os.ReadFile(fmt.Sprintf("%s/viol.%d", dir, i))
		had := false
		for _, line := range strings.Split(string(vb), "\n") {
			if line == "" {
				continue
			}
			v := new(Violation)
			if json.Unmarshal([]byte(line), v) == nil {
				viols = append(viols, v)
				had = true
			}
		}
		switch {
		case res[i].code == 0 || (res[i].code == 1 || res[i].code == 7) && had:
		case res[i].code == 7: // watchdog fired on a known finding
		case res[i].killed:
			if inconclusive == "" {
				inconclusive = fmt.Sprintf("worker %d was stopped at case %d (wall-clock limit, or another worker failed)", i, res[i].last)
			}
		default:
			// The process died: a crash or a race report.
			sig, msg := classifyCrash(res[i].stderr)
			if sig == "" {
				inconclusive = fmt.Sprintf("worker %d ended with code %d at case %d:\n%s", i, res[i].code, res[i].last, head(res[i].stderr, 4000))
				break
			}
			isKnown := false
			for _, f := range listed {
				if f.Sig == sig {
					isKnown = true
					total.Known[sig]++
				}
			}
			if !isKnown {
				viols = append(viols, &Violation{p.ID, tier, seed, res[i].last, sig, msg, nil})
			}
		}
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, tier, seed, verif, total, len(viols), wall)
	for _, f := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", p.ID, f.What, total.Known[f.Sig])
	}
	if len(viols) > 0 {
		rd := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range viols {
			if i >= 5 {
				fmt.Printf("(%d further violations not printed)\n", len(viols)-i)
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, tier, seed, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
			fmt.Printf("  case %d [%s]: %s\n", v.Case, v.Sig, strings.ReplaceAll(head(v.Message, 1500), "\n", "\n  "))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 3
	}
	for _, r := range p.Required {
		if total.Counters[r] == 0 {
			fmt.Printf("INCONCLUSIVE: the run never observed %q\n", r)
			return 3
		}
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial) in %d cases, %.1fs\n", p.ID, total.Evals, len(total.Distinct), total.Cases, wall)
	return 0
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var goidLine = regexp.MustCompile(`(?m)^goroutine \d+ \[running\]:`)

// classifyCrash attributes the death of a worker to the code under test, or
// returns "" when nothing points at it.
func classifyCrash(stderr string) (sig, msg string) {
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		rep := stderr[i:]
		if j := strings.Index(rep, "\n=================="); j > 0 {
			rep = rep[:j]
		}
		// only the two access stacks count, not the goroutine creation sites
		acc := rep
		if j := strings.Index(acc, "created at:"); j > 0 {
			acc = acc[:j]
		}
		re := regexp.MustCompile(`(?m)^\s+github\.com/ipfs/go-unixfs([^\n(]*(?:\(\*\w+\))?[^\n(]*)\(\)`)
		var fs []string
		for _, m := range re.FindAllStringSubmatch(acc, -1) {
			fs = append(fs, m[1])
		}
		if len(fs) == 0 {
			if !strings.Contains(rep, "github.com/ipfs/go-unixfs") {
				return "", ""
			}
			fs = []string{"?"}
		}
		return "race:" + fs[0] + "|" + fs[len(fs)-1], head(rep, 8000)
	}
	for _, k := range []string{"fatal error: ", "panic: "} {
		if i := strings.Index(stderr, k); i >= 0 {
			rep := stderr[i:]
			st := rep
			if loc := goidLine.FindStringIndex(rep); loc != nil {
				st = rep[loc[0]:]
				if j := strings.Index(st, "\n\n"); j > 0 {
					st = st[:j]
				}
			}
			if strings.Contains(st, "github.com/ipfs/go-unixfs") || k == "fatal error: " && strings.Contains(rep, "github.com/ipfs/go-unixfs") {
				return "crash:" + topUnixfsFrame(st), head(rep, 8000)
			}
		}
	}
	return "", ""
}

func writeEvidence(p *Prop, tier string, seed uint64, verif string, t *Summary, nviol int, wall float64) {
	cov := map[string]interface{}{
		"evaluations":         t.Evals,
		"distinct_nontrivial": len(t.Distinct),
		"rule":                p.Rule,
		"cases":               t.Cases,
		"samples":             t.Samples,
	}
	if len(t.Samples) > 8 {
		cov["samples"] = t.Samples[:8]
	}
	obs := map[string]interface{}{}
	for k, v := range t.Counters {
		obs[k] = v
	}
	for k, v := range t.Maxes {
		obs["max_"+k] = v
	}
	for k, m := range t.States {
		obs["distinct_"+k] = len(m)
	}
	cov["observed"] = obs
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": wall, "violations": nviol,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
}
