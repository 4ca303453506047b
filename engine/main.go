package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "trace-file" {
		t, err := genTrace("/repo")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Print(t)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "levels" {
		b, _ := json.MarshalIndent(levels(), "", " ")
		fmt.Println(string(b))
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2]))
	}
	classes := flag.String("classes", strings.Join(allClasses, ","), "")
	repo := flag.String("repo", "/repo", "development only: verify another copy")
	fns := flag.String("fn", "", "verify only these functions (comma separated)")
	dump := flag.String("dump", "", "print the SSA of a function")
	flag.Parse()
	t0 := time.Now()
	p, err := loadProgram(*repo, "/verif/contracts")
	if err != nil {
		fmt.Println("LOAD:", err)
		os.Exit(2)
	}
	if *dump != "" {
		p.pkg.Func(*dump).WriteTo(os.Stdout)
		return
	}
	fmt.Println("loaded", time.Since(t0), "dropped:", p.dropped)
	var names []string
	for n := range p.byName {
		names = append(names, n)
	}
	sort.Strings(names)
	want := map[string]bool{}
	for _, f := range strings.Split(*fns, ",") {
		if f != "" {
			want[f] = true
		}
	}
	type job struct {
		n string
		r *FnResult
	}
	var todo []string
	for _, n := range names {
		if len(want) == 0 || want[n] {
			todo = append(todo, n)
		}
	}
	res := make([]*FnResult, len(todo))
	sem := make(chan bool, 8)
	done := make(chan bool)
	for i := range todo {
		go func(i int) {
			sem <- true
			res[i] = verifyFn(p, p.byName[todo[i]], strings.Split(*classes, ","), 120*time.Second)
			<-sem
			done <- true
		}(i)
	}
	for range todo {
		<-done
	}
	for _, r := range res {
		bad := 0
		n := 0
		for _, o := range r.Obls {
			n += o.N
			if o.Fail > 0 {
				bad++
			}
		}
		st := "ok"
		if bad > 0 || r.Err != "" {
			st = "FAIL"
		}
		fmt.Printf("%-4s %-40s obls=%d inst=%d paths=%d q=%d solver=%.2fs total=%.2fs maxq=%.2fs\n", st, r.Name, len(r.Obls), n, r.Paths, r.Queries, r.SolverSec, r.Sec, r.MaxQ)
		if r.Err != "" {
			fmt.Println("     ", r.Err)
		}
		for _, o := range r.Obls {
			if o.Fail > 0 {
				h, _ := json.Marshal(o.Hints)
				w := o.Why
				if len(w) > 15000 {
					w = w[:15000]
				}
				if len(h) > 600 {
					h = h[:600]
				}
				fmt.Printf("      FAILED [%s] %s (%d/%d): %s\n        hints %s\n", o.Class, o.Name, o.Fail, o.N, w, h)
			}
		}
	}
	fmt.Println("total", time.Since(t0))
}

func (r *FnResult) failed() bool {
	for _, o := range r.Obls {
		if o.Fail > 0 {
			return true
		}
	}
	return r.Err != ""
}

// verifyFn verifies one function; where that fails with specification functions left opaque, it tries with their definitions.
func verifyFn(p *Program, fn *ssa.Function, classes []string, budget time.Duration) *FnResult {
	r, saw := verifyFn1(p, fn, classes, budget, false)
	if saw && r.failed() {
		if r2, _ := verifyFn1(p, fn, classes, budget, true); !r2.failed() {
			r2.Sec += r.Sec
			r2.Queries += r.Queries
			r2.SolverSec += r.SolverSec
			return r2
		}
	}
	return r
}
func verifyFn1(p *Program, fn *ssa.Function, classes []string, budget time.Duration, expand bool) (r *FnResult, saw bool) {
	virt := map[*ssa.BasicBlock]bool{}
	t0 := time.Now()
	for {
		r, saw, b := verifyFn2(p, fn, classes, budget-time.Since(t0), expand, virt)
		if b == nil || virt[b] {
			return r, saw
		}
		virt[b] = true // unrolling it does not end: summarise it
	}
}
func verifyFn2(p *Program, fn *ssa.Function, classes []string, budget time.Duration, expand bool, virt map[*ssa.BasicBlock]bool) (r *FnResult, saw bool, limit *ssa.BasicBlock) {
	t0 := time.Now()
	x := newExec(p, classes, 20000)
	x.expand = expand
	x.virt = virt
	x.deadline = t0.Add(budget)
	r = &FnResult{Name: shortName(fn)}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch v := e.(type) {
				case Unsupported:
					r.Err = "unsupported: " + v.Msg
				case timeout:
					r.Err = "timeout"
				case loopLimit:
					r.Err = "loop needs more iterations than the limit in " + v.b.Parent().String()
					limit = v.b
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(e)
					}
					r.Err = fmt.Sprint("internal: ", e)
				}
			}
		}()
		x.verify(fn, p.contracts[fn])
	}()
	for _, k := range x.oblOrder {
		r.Obls = append(r.Obls, x.obls[k])
	}
	for f := range x.used {
		r.Used = append(r.Used, shortName(f))
	}
	sort.Strings(r.Used)
	for f := range x.inlined {
		r.Inlined = append(r.Inlined, f)
	}
	sort.Strings(r.Inlined)
	for f := range x.trusted {
		r.Trusted = append(r.Trusted, f)
	}
	sort.Strings(r.Trusted)
	r.Paths, r.Queries, r.SolverSec, r.MaxQ = x.paths, x.s.Queries, x.s.Time.Seconds(), x.s.MaxQ.Seconds()
	r.Covered = x.cover
	r.Sec = time.Since(t0).Seconds()
	if x.s2 != nil {
		r.Queries += x.s2.Queries
		r.SolverSec += x.s2.Time.Seconds()
		x.s2.Close()
	}
	x.s.Close()
	return r, x.sawOpaque, limit
}
