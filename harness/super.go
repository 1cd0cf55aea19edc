package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: qv check|worker|list ...")
		os.Exit(2)
	}
	applyExtensions()
	expandRace()
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, j := range props[id].Jobs {
				fmt.Println(id, j.Name, j.Quick, j.Deep)
			}
		}
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4])
	case "check":
		os.Exit(check(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func tier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func baseSeed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func worker(propID, job, ks string) {
	p := props[propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	// code that allocates without end ends itself, not the machine (no job needs a third of this)
	if !raceBuild {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	}
	k, _ := strconv.Atoi(ks)
	for i := range p.Jobs {
		j := &p.Jobs[i]
		if j.Name != job {
			continue
		}
		seed := jobSeed(baseSeed(), propID, job, k)
		c := &C{Prop: propID, Job: job, K: k, Seed: seed, Tier: tier(), Rng: NewRng(seed), counters: map[string]int64{},
			distinct: map[uint64]struct{}{}, start: time.Now(), outFile: os.Getenv("QV_OUT")}
		startControl()
		installLogger(c)
		j.Fn(c)
		c.finish(true)
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such job")
	os.Exit(2)
}

type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(dir string) []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(2)
	}
	return ks
}

type task struct {
	j *JobSpec
	k int
}

func check(propID string) int {
	p := props[propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", propID)
		return 2
	}
	verif := os.Getenv("QV_DIR")
	if verif == "" {
		verif = "/verif"
	}
	start := time.Now()
	outDir := filepath.Join(verif, "out", propID)
	os.MkdirAll(outDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(outDir, "*"))
	for _, f := range old {
		os.Remove(f)
	}
	var tasks, alone []task
	for i := range p.Jobs {
		j := &p.Jobs[i]
		n := j.Quick
		if tier() == "thorough" {
			n = j.Deep
			if n == 0 {
				n = j.Quick * 6
			}
		}
		for k := 0; k < n; k++ {
			if j.Alone {
				alone = append(alone, task{j, k})
			} else {
				tasks = append(tasks, task{j, k})
			}
		}
	}
	par := 6
	if p.Par > 0 {
		par = p.Par
	}
	if v, err := strconv.Atoi(os.Getenv("QV_PAR")); err == nil && v > 0 {
		par = v
	}
	var mu sync.Mutex
	var results []Result
	var errs []string
	viol := map[string]string{} // sig -> replay path
	violText := map[string]string{}
	stop := false
	runOne := func(t task) {
		r, replay, err := runWorker(p, t, outDir)
		mu.Lock()
		defer mu.Unlock()
		if err != "" {
			errs = append(errs, err)
			return
		}
		results = append(results, r)
		for _, v := range r.Viols {
			if _, ok := viol[v.Sig]; !ok {
				viol[v.Sig] = replay
				violText[v.Sig] = v.Detail
			}
		}
	}
	kn := loadKnown(verif)
	isKnown := func(sig string) *known {
		for i := range kn {
			if kn[i].Property == propID && kn[i].Status == "open" && kn[i].Sig == sig {
				return &kn[i]
			}
		}
		return nil
	}
	unlisted := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for s := range viol {
			if isKnown(s) == nil {
				return true
			}
		}
		return false
	}
	runAll := func(ts []task, par int) {
		ch := make(chan task)
		var wg sync.WaitGroup
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for t := range ch {
					mu.Lock()
					s := stop
					mu.Unlock()
					if s {
						continue
					}
					runOne(t)
					if unlisted() && os.Getenv("QV_ALL") == "" {
						mu.Lock()
						stop = true
						mu.Unlock()
					}
				}
			}()
		}
		for _, t := range ts {
			ch <- t
		}
		close(ch)
		wg.Wait()
	}
	runAll(tasks, par)
	runAll(alone, 1)

	// evidence
	counters := map[string]int64{}
	distinct := map[string]struct{}{}
	var samples []interface{}
	for _, r := range results {
		for k, v := range r.Counters {
			counters[k] += v
		}
		for _, d := range r.Distinct {
			distinct[d] = struct{}{}
		}
		for _, s := range r.Samples {
			if len(samples) < 24 {
				samples = append(samples, fmt.Sprintf("%s[k=%d seed=%d] %s", r.Job, r.K, r.Seed, s))
			}
		}
		if r.Inconclusive != "" {
			errs = append(errs, r.Job+": inconclusive: "+r.Inconclusive)
		}
	}
	ev := map[string]interface{}{}
	for k, v := range counters {
		ev[k] = v
	}
	ev["evaluations"] = counters["evaluations"]
	ev["distinct_nontrivial"] = len(distinct)
	ev["rule"] = p.Rule
	ev["worker_processes"] = len(results)
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev["samples"] = samples
	nviol := 0
	var sigs []string
	for s := range viol {
		sigs = append(sigs, s)
		if isKnown(s) == nil {
			nviol++
		}
	}
	sort.Strings(sigs)
	doc := map[string]interface{}{
		"property": propID, "tier": tier(), "seed": baseSeed(), "level": levelOf(propID), "coverage": ev,
		"assumptions": append([]string{"verdict covers only the executions produced in this run"}, p.Notes...),
		"wall_s":      time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", propID+".json"), append(b, '\n'), 0o644)

	for _, s := range sigs {
		if k := isKnown(s); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", propID, k.What)
		}
	}
	if nviol > 0 {
		for _, s := range sigs {
			if isKnown(s) != nil {
				continue
			}
			txt := violText[s]
			if len(txt) > 1500 {
				txt = txt[:1500] + "..."
			}
			fmt.Printf("violation [%s]: %s\n", s, txt)
			fmt.Printf("VIOLATION property=%s replay=%s\n", propID, viol[s])
		}
		return 1
	}
	for _, e := range errs {
		fmt.Println("ERROR", e)
	}
	if len(errs) > 0 {
		return 3
	}
	if counters["evaluations"] < p.MinEv || len(distinct) < 2 {
		fmt.Printf("ERROR %s: only %d evaluations (%d distinct): nothing decided\n", propID, counters["evaluations"], len(distinct))
		return 3
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d processes=%d wall=%.1fs\n", propID, tier(), counters["evaluations"], len(distinct), len(results), time.Since(start).Seconds())
	return 0
}

var panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|unexpected fault address.*)$`)

func runWorker(p *Prop, t task, outDir string) (Result, string, string) {
	name := fmt.Sprintf("%s-%d", t.j.Name, t.k)
	outFile := filepath.Join(outDir, name+".json")
	logFile := filepath.Join(outDir, name+".log")
	replay := filepath.Join(outDir, name+".replay.txt")
	timeout := t.j.Timeout
	if timeout == 0 {
		timeout = 100 * time.Second
	}
	if tier() == "thorough" {
		timeout *= 4
	}
	seed := jobSeed(baseSeed(), p.ID, t.j.Name, t.k)
	cmdline := fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s %s/check.sh worker %s %s %d", baseSeed(), tier(), "/verif", p.ID, t.j.Name, t.k)
	mkReplay := func(detail string) {
		os.WriteFile(replay, []byte(fmt.Sprintf("property %s job %s k=%d job-seed=%d\nreplay: %s\n\n%s\n", p.ID, t.j.Name, t.k, seed, cmdline, detail)), 0o644)
	}
	for attempt := 0; ; attempt++ {
		os.Remove(outFile)
		lf, err := os.Create(logFile)
		if err != nil {
			return Result{}, "", err.Error()
		}
		cmd := exec.Command(os.Args[0], "worker", p.ID, t.j.Name, strconv.Itoa(t.k))
		cmd.Stdout, cmd.Stderr = lf, lf
		raceLog := filepath.Join(outDir, name+".race")
		cmd.Env = append(os.Environ(), "QV_OUT="+outFile, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			lf.Close()
			return Result{}, "", err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		timedOut := false
		var werr error
		select {
		case werr = <-done:
		case <-time.After(timeout):
			timedOut = true
			syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
			select {
			case werr = <-done:
			case <-time.After(5 * time.Second):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
			}
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		lf.Close()
		var r Result
		b, rerr := os.ReadFile(outFile)
		if rerr == nil {
			rerr = json.Unmarshal(b, &r)
		}
		lb, _ := os.ReadFile(logFile)
		if rerr == nil && r.Done {
			if p.Race {
				r.Viols = append(r.Viols, racesOf(raceLog)...)
			}
			if len(r.Viols) > 0 {
				var sb strings.Builder
				for _, v := range r.Viols {
					fmt.Fprintf(&sb, "[%s]\n%s\n\n", v.Sig, v.Detail)
				}
				mkReplay(sb.String())
			} else {
				os.Remove(logFile)
				os.Remove(outFile)
			}
			return r, replay, ""
		}
		r = Result{Prop: p.ID, Job: t.j.Name, K: t.k, Seed: seed}
		if timedOut && p.Race {
			// slow under the race detector; whatever was reported counts
			r.Done = true
			r.Counters = map[string]int64{"workers_timed_out": 1}
			r.Viols = racesOf(raceLog)
			if len(r.Viols) > 0 {
				mkReplay(r.Viols[0].Detail)
			}
			return r, replay, ""
		}
		if timedOut {
			if attempt == 0 { // once more: a hang that is the machine's does not repeat
				continue
			}
			mkReplay("job did not finish twice within " + timeout.String() + "\n" + tail(lb, 60000))
			r.Viols = []Viol{{Sig: "hang:" + t.j.Name, Detail: "job did not finish within " + timeout.String()}}
			return r, replay, ""
		}
		if m := panicRe.Find(lb); m != nil {
			mkReplay("process crashed\n" + tail(lb, 60000))
			i := bytes.Index(lb, m)
			r.Viols = []Viol{{Sig: "crash:" + t.j.Name, Detail: tail(lb[i:min(len(lb), i+3000)], 3000)}}
			return r, replay, ""
		}
		return r, "", fmt.Sprintf("%s: worker ended without result: %v\n%s", name, werr, tail(lb, 2000))
	}
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func racesOf(prefix string) (vs []Viol) {
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		rb, _ := os.ReadFile(f)
		vs = append(vs, parseRaces(string(rb))...)
		if len(vs) == 0 {
			os.Remove(f)
		}
	}
	return
}

// parseRaces splits race detector output into reports, keyed by the pair of innermost library functions.
func parseRaces(s string) []Viol {
	var out []Viol
	seen := map[string]bool{}
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var fns []string
		for _, part := range regexp.MustCompile(`(?m)^(?:Previous )?(?:[Ww]rite|[Rr]ead|[Aa]tomic [a-z]+) .*$`).Split(blk, -1)[1:] {
			if i := strings.Index(part, "Goroutine "); i >= 0 {
				part = part[:i]
			}
			fn := "?"
			for _, m := range regexp.MustCompile(`(?m)^  (\S+)\(\)`).FindAllStringSubmatch(part, -1) {
				if strings.HasPrefix(m[1], "main.") {
					break // an access of the harness
				}
				if strings.Contains(m[1], "zhiqiangxu/qrpc") {
					fn = strings.TrimPrefix(m[1], "github.com/zhiqiangxu/")
					break
				}
			}
			fns = append(fns, fn)
		}
		lib := false
		for _, f := range fns {
			if f != "?" {
				lib = true
			}
		}
		if !lib {
			// neither access is the library's: a race in the harness, not a finding
			continue
		}
		sort.Strings(fns)
		sig := "race:" + strings.Join(fns, "|")
		if !seen[sig] {
			seen[sig] = true
			out = append(out, Viol{Sig: sig, Detail: blk})
		}
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func levelOf(id string) string {
	if id == "C09" {
		return "fault_enumeration"
	}
	return "exploration"
}
