package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropDef binds a property to the contracts that state it: the functions whose contracts are the property (roots; the
// contracts they rely on are added transitively) and the clause classes that belong to it.
type PropDef struct {
	ID       string
	Classes  []string
	Roots    []string // regular expressions over function names
	Level    string   // proof, or exploration while the deciding functions are only checked boundedly
	Bounded  []string // functions (or layers) outside the contracts, covered by the bounded harness only
	Assume   []string
	QuickSec float64
	Note     string
}

const (
	repoDir = "/repo"
)

var commonTrusted = []string{
	"the verifier itself: engine/*.go (go/ssa front end from golang.org/x/tools, symbolic execution, VC generation), and the SMT solvers z3 5.3.2 / cvc5 1.1.2",
	"the Go compiler and runtime implement the semantics go/ssa assumes (int is 64 bits); memory allocation succeeds",
}

type replay struct {
	b strings.Builder
}

func checkMain(id string) int {
	t0 := time.Now()
	verifDir := os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	pd := propDefs[id]
	if pd == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	work, err := os.MkdirTemp("", "vcheck-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	replayDir := filepath.Join(verifDir, "replay")
	os.MkdirAll(replayDir, 0o755)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)

	// ---- harness build, in parallel with the proof
	type hb struct {
		bin string
		err string
	}
	hbc := make(chan hb, 1)
	go func() {
		out := filepath.Join(work, "vh")
		var last string
		tr, err := genTrace(repoDir)
		for _, src := range []string{tr, "package bin\n\nfunc VH_SetTrace(on bool) bool { return false }\n"} {
			if src == "" {
				if err != nil {
					last = err.Error()
				}
				continue
			}
			tf := filepath.Join(work, "trace.go")
			os.WriteFile(tf, []byte(src), 0o644)
			ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(repoDir, "zz_vh_trace.go"): tf}})
			of := filepath.Join(work, "overlay.json")
			os.WriteFile(of, ov, 0o644)
			cmd := exec.Command("bash", filepath.Join(verifDir, "harness", "build.sh"), out, of)
			b, err := cmd.CombinedOutput()
			if err == nil {
				hbc <- hb{bin: out}
				return
			}
			last = string(b)
		}
		hbc <- hb{err: last}
	}()
	lits := harvest(repoDir)
	litFile := filepath.Join(work, "lits.json")
	lb, _ := json.Marshal(lits)
	os.WriteFile(litFile, lb, 0o644)

	// ---- the proof
	pr := proveProp(pd, verifDir, tier)

	// ---- the harness: bounded stand-in, and replayer of failed obligations
	h := <-hbc
	secs := pd.QuickSec
	if secs == 0 {
		secs = 10
	}
	procs := 6
	if tier == "thorough" {
		secs = 150
		procs = 8
	}
	if len(pr.failed) > 0 && secs < 25 {
		secs = 25
	}
	hints := filepath.Join(work, "hints.json")
	jb, _ := json.Marshal(pr.hints)
	os.WriteFile(hints, jb, 0o644)
	var hr harnessResult
	if h.err == "" {
		hr = runHarness(h.bin, id, seed, secs, procs, litFile, hints, work)
	}

	// ---- verdict
	viol := ""
	noInput := false
	rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.txt", id, tier, seed))
	os.Remove(rp)
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s, tier %s, seed %d, tree %s\n\n", id, tier, seed, treeID())
	switch {
	case h.err != "":
		viol, noInput = "the executable specification no longer builds against the repository", true
		fmt.Fprintf(&rb, "%s:\n%s\n", viol, h.err)
	case hr.fail != "":
		viol = hr.fail
		fmt.Fprintf(&rb, "FAILING INPUT found by running the real code against the executable specification (harness section %q, harness seed %d).\nReplay: bash %s/harness/replay.sh %s %d %g %s.lits.json %s.hints.json\n\ncase: %s\n\n%s\n", hr.section, hr.failSeed, verifDir, id, hr.failSeed, secs, rp, rp, hr.kase, hr.fail)
		os.WriteFile(rp+".lits.json", lb, 0o644)
		os.WriteFile(rp+".hints.json", jb, 0o644)
	case len(pr.failed) > 0:
		viol, noInput = pr.failed[0], true
		fmt.Fprintf(&rb, "The verifier no longer discharges every obligation; the replay harness (%d executions of the real code, guided by the solver's countermodels) found no failing input.\n", hr.evals)
	}
	if len(pr.failed) > 0 {
		fmt.Fprintf(&rb, "\nFAILED OBLIGATIONS\n")
		for _, f := range pr.failed {
			fmt.Fprintf(&rb, "- %s\n", f)
		}
		if len(pr.hints) > 0 {
			b, _ := json.MarshalIndent(pr.hints, "", " ")
			fmt.Fprintf(&rb, "\nsolver countermodels (inputs of the failing function):\n%s\n", b)
		}
	}
	for _, k := range knownFindings(verifDir, id) {
		fmt.Println("KNOWN-FINDING: " + k)
	}
	writeEvidence(verifDir, pd, tier, seed, pr, &hr, time.Since(t0).Seconds(), viol != "")
	if viol == "" {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d harness=%d evaluations, %.1fs\n", id, pr.obls, pr.disch, len(pr.funcs), hr.evals, time.Since(t0).Seconds())
		return 0
	}
	text := printable(rb.String())
	os.WriteFile(rp, []byte(text), 0o644)
	fmt.Println(clipS(text, 6000))
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", id, rp)
	if noInput {
		line += " no-failing-input-found"
	}
	fmt.Println(line)
	return 1
}

// printable keeps the report plain text whatever bytes a failing case prints.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '\n' || c == '\t' || c >= 0x20 && c < 0x7f {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\x%02x", c)
		}
	}
	return b.String()
}
func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}
func treeID() string {
	b, err := exec.Command("git", "-C", repoDir, "describe", "--always", "--dirty").Output()
	if err != nil {
		return "?"
	}
	return strings.TrimSpace(string(b))
}

// knownFindings lists the findings recorded (not fixed) for a property.
func knownFindings(dir, id string) []string {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

// ---------------------------------------------------------------- proof

type proof struct {
	obls, disch, vcs int
	failed           []string
	hints            []hint
	funcs            []string
	viaContract      []string
	inlined          []string
	trusted          []string
	dropped          []string
	paths, queries   int
	solver, maxq     float64
	byBackend        map[string]int
	classes          []string
	samples          []string
	wall             float64
	loops            map[string]int
}
type hint struct {
	Fn     string
	Values map[string]string
}

func proveProp(pd *PropDef, verifDir, tier string) *proof {
	t0 := time.Now()
	pr := &proof{byBackend: map[string]int{}, classes: pd.Classes, loops: map[string]int{}}
	defer func() { pr.wall = time.Since(t0).Seconds() }()
	if len(pd.Roots) == 0 {
		return pr
	}
	p, err := loadProgram(repoDir, filepath.Join(verifDir, "contracts"))
	if err != nil {
		pr.failed = append(pr.failed, "the repository with its contracts does not load: "+clipS(err.Error(), 2000))
		return pr
	}
	pr.dropped = p.dropped
	var roots []string
	for _, r := range pd.Roots {
		re := regexp.MustCompile("^(" + r + ")$")
		n := 0
		for name := range p.byName {
			if re.MatchString(name) {
				roots = append(roots, name)
				n++
			}
		}
		for _, d := range p.dropped {
			name := strings.Replace(strings.Fields(d)[0], "_", ".", 1)
			last := name[strings.LastIndex(name, ".")+1:]
			if re.MatchString(name) && ast.IsExported(last) && ast.IsExported(name) {
				pr.failed = append(pr.failed, "the contract of "+d+" no longer applies")
			}
		}
		if n == 0 {
			pr.failed = append(pr.failed, "no function under contract matches "+r+" any more (dropped contracts: "+strings.Join(p.dropped, "; ")+")")
		}
	}
	sort.Strings(roots)
	budget := 150 * time.Second
	deadline := time.Now().Add(500 * time.Second) // all functions together
	if tier == "thorough" {
		budget = 500 * time.Second
		deadline = time.Now().Add(2400 * time.Second)
	}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var results []*FnResult
	var add func(n string)
	add = func(n string) {
		mu.Lock()
		if seen[n] || p.byName[n] == nil {
			mu.Unlock()
			return
		}
		seen[n] = true
		mu.Unlock()
		wg.Add(1)
		go func(fn *ssa.Function) {
			defer wg.Done()
			sem <- true
			b := budget
			if left := time.Until(deadline); left < b {
				b = left
			}
			if b < time.Second {
				b = time.Second
			}
			r := verifyFn(p, fn, pd.Classes, b)
			<-sem
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			for _, u := range r.Used {
				add(u)
			}
		}(p.byName[n])
	}
	for _, n := range roots {
		add(n)
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Name < results[j].Name })
	uses, inl, tr := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range results {
		pr.funcs = append(pr.funcs, r.Name)
		pr.paths += r.Paths
		pr.queries += r.Queries
		pr.solver += r.SolverSec
		if r.MaxQ > pr.maxq {
			pr.maxq = r.MaxQ
		}
		for _, u := range r.Used {
			uses[u] = true
		}
		for _, u := range r.Inlined {
			inl[u] = true
		}
		for _, u := range r.Trusted {
			tr[u] = true
		}
		for i, o := range r.Obls {
			pr.obls++
			pr.vcs += o.N
			if o.Fail == 0 && r.Err == "" {
				pr.disch++
				if i == 0 && len(pr.samples) < 12 {
					pr.samples = append(pr.samples, fmt.Sprintf("%s: %s (%d verification conditions)", o.Fn, o.Name, o.N))
				}
				continue
			}
			if o.Fail > 0 {
				pr.failed = append(pr.failed, fmt.Sprintf("%s [%s] %s: %d of %d verification conditions not discharged: %s", o.Fn, o.Class, o.Name, o.Fail, o.N, clipS(o.Why, 1500)))
				if len(o.Hints) > 0 {
					pr.hints = append(pr.hints, hint{o.Fn, o.Hints})
				}
			}
		}
		if r.Err != "" {
			pr.failed = append(pr.failed, fmt.Sprintf("%s: no verdict: %s", r.Name, r.Err))
		}
		if r.Err == "" && len(r.Obls) == 0 {
			pr.failed = append(pr.failed, fmt.Sprintf("%s: no obligation was generated", r.Name))
		}
	}
	pr.viaContract, pr.inlined, pr.trusted = keys(uses), keys(inl), keys(tr)
	return pr
}
func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- harness

type harnessResult struct {
	evals, distinct int
	fail, kase      string
	section         string
	failSeed        int
	samples         []string
	sections        map[string]int
	secs            float64
	procs           int
}

func runHarness(bin, id string, seed int, secs float64, procs int, lits, hints, work string) (res harnessResult) {
	res.sections = map[string]int{}
	res.secs, res.procs = secs, procs
	var mu sync.Mutex
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	run := func(k int, extra ...string) (string, map[string]interface{}, int) {
		out := filepath.Join(work, fmt.Sprintf("h%d.json", k))
		os.Remove(out)
		args := append([]string{"-prop", id, "-seed", fmt.Sprint(seed*1000 + k), "-secs", fmt.Sprint(secs), "-lits", lits, "-hints", hints, "-out", out}, extra...)
		cmd := exec.CommandContext(ctx, "bash", append([]string{"-c", `ulimit -v 12000000; exec "$0" "$@"`, bin}, args...)...)
		var ob bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &ob
		err := cmd.Run()
		code := 0
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		m := map[string]interface{}{}
		if b, err := os.ReadFile(out); err == nil {
			json.Unmarshal(b, &m)
		}
		return ob.String(), m, code
	}
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var extra []string
			if k > 0 {
				extra = append(extra, "-once=false")
			}
			out, m, code := run(k, extra...)
			mu.Lock()
			defer mu.Unlock()
			if res.fail != "" {
				return
			}
			num := func(s string) int { f, _ := m[s].(float64); return int(f) }
			str := func(s string) string { f, _ := m[s].(string); return f }
			switch {
			case code == 0:
				res.evals += num("evaluations")
				res.distinct += num("distinct")
				if ss, ok := m["sections"].(map[string]interface{}); ok {
					for n, v := range ss {
						f, _ := v.(float64)
						res.sections[n] += int(f)
					}
				}
				if k < 2 {
					if ss, ok := m["samples"].([]interface{}); ok {
						for _, s := range ss {
							if t, ok := s.(string); ok && len(res.samples) < 10 {
								res.samples = append(res.samples, t)
							}
						}
					}
				}
			case code == 1 && str("failure") != "":
				res.fail, res.kase, res.section, res.failSeed = str("failure"), str("case"), str("section"), seed*1000+k
				cancel()
			default:
				if ctx.Err() != nil {
					return
				}
				// the run was killed by the code under test (stack overflow, out of memory): find the case
				last := filepath.Join(work, fmt.Sprintf("last%d", k))
				mu.Unlock()
				out2, _, _ := run(k, append(extra, "-lastcase", last)...)
				mu.Lock()
				b, _ := os.ReadFile(last)
				if len(b) == 0 {
					b = []byte("(unknown)")
				}
				res.fail, res.kase, res.failSeed = fmt.Sprintf("the run ended with exit code %d:\n%s\n%s", code, clipS(out, 3000), clipS(out2, 500)), string(b), seed*1000+k
				cancel()
			}
		}(k)
	}
	wg.Wait()
	return res
}

// ---------------------------------------------------------------- literals

type Lits struct {
	Ints    []uint64
	Strings []string
}

// harvest collects the integer and string literals of the sources, as inputs worth trying.
func harvest(repo string) Lits {
	var l Lits
	_, fs, err := repoFiles(repo)
	if err != nil {
		return l
	}
	is, ss := map[uint64]bool{}, map[string]bool{}
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT, token.CHAR:
				if b.Kind == token.CHAR {
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(b.Value, "'"), '\''); err == nil {
						is[uint64(r)] = true
						ss[string(r)] = true
					}
				} else if v, err := strconv.ParseUint(b.Value, 0, 64); err == nil {
					is[v] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(b.Value); err == nil && len(s) < 60 {
					ss[s] = true
				}
			}
			return true
		})
	}
	for v := range is {
		l.Ints = append(l.Ints, v)
	}
	sort.Slice(l.Ints, func(i, j int) bool { return l.Ints[i] < l.Ints[j] })
	for s := range ss {
		l.Strings = append(l.Strings, s)
	}
	sort.Strings(l.Strings)
	return l
}

// ---------------------------------------------------------------- evidence

func writeEvidence(dir string, pd *PropDef, tier string, seed int, pr *proof, hr *harnessResult, wall float64, violated bool) {
	cov := map[string]interface{}{}
	bounded := map[string]interface{}{
		"label":       "bounded: executable specification run against the real code; never counted as proved",
		"bound":       fmt.Sprintf("%d processes x %.0f s of seeded generation plus the enumerated sections", hr.procs, hr.secs),
		"evaluations": hr.evals, "distinct_cases": hr.distinct, "sections": hr.sections,
	}
	if len(pd.Bounded) > 0 {
		bounded["stands_in_for"] = pd.Bounded
	}
	if pd.Level == "proof" {
		cov["obligations"] = pr.obls
		cov["discharged"] = pr.disch
		cov["checker_cmd"] = "bin/engine check " + pd.ID
		cov["trusted_base"] = append(append([]string{}, commonTrusted...), pr.trusted...)
		cov["bounded_standin"] = bounded
	} else {
		cov["evaluations"] = hr.evals
		cov["distinct_nontrivial"] = hr.distinct
		cov["rule"] = "types, values and byte inputs are generated from the seed (edge values, literals of the sources, countermodels of failed obligations first); a case is distinct by its rendered input, and every case compares the real code's bytes, value, error and cursor with the executable specification"
		if len(hr.samples) > 0 {
			cov["samples"] = hr.samples
		} else {
			cov["samples"] = []string{"none"}
		}
		cov["bounded"] = bounded
		cov["contract_obligations"] = pr.obls
		cov["contract_obligations_discharged"] = pr.disch
	}
	if len(pd.Roots) > 0 {
		cov["functions_under_contract"] = pr.funcs
		cov["verification_conditions"] = pr.vcs
		cov["callees_used_through_contract"] = pr.viaContract
		cov["helpers_inlined"] = pr.inlined
		cov["clause_classes"] = pr.classes
		cov["paths"] = pr.paths
		cov["solver_queries"] = pr.queries
		cov["solver_seconds"] = pr.solver
		cov["slowest_query_seconds"] = pr.maxq
		cov["back_end"] = "z3-new (64-bit bit-vectors and a linear-integer view), cvc5 as fallback"
		cov["sample_obligations"] = pr.samples
		cov["dropped_contracts"] = pr.dropped
		cov["failed_obligations"] = pr.failed
	}
	assume := append([]string{}, pd.Assume...)
	if len(pd.Bounded) > 0 {
		assume = append(assume, "not under contract, bounded check only: "+strings.Join(pd.Bounded, ", "))
	}
	for _, t := range pr.trusted {
		assume = append(assume, "trusted: "+t)
	}
	ev := map[string]interface{}{
		"property": pd.ID, "tier": tier, "seed": seed, "level": pd.Level, "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": map[bool]int{false: 0, true: 1}[violated],
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", pd.ID+".json"), append(b, '\n'), 0o644)
}
