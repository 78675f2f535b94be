// geoqlcheck decides properties of go-geoql-parser by abstract
// interpretation of its SSA form. It never runs the code it judges.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Result is what one analysis found.
type Result struct {
	Name      string
	Viols     []Violation
	Stats     map[string]int
	Samples   []string
	Rules     []string
	Assumed   map[string]bool
	Notes     map[string]bool
	WallS     float64
	Undecided string
	gaps      bool // some path could not be followed
}

func newResult(name string) *Result {
	return &Result{Name: name, Stats: map[string]int{}, Assumed: map[string]bool{}, Notes: map[string]bool{}}
}

func (r *Result) add(props []string, kind, pos, format string, a ...any) {
	r.Viols = append(r.Viols, Violation{Props: props, Kind: kind, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

// absorb takes over the results of a finished engine run.
func (r *Result) absorb(e *Engine, top *Ctx) {
	if len(e.undecided) > 0 {
		r.gaps = true
	}
	r.Viols = append(r.Viols, violations(top)...)
	for _, k := range sortedKeys(e.extra) {
		r.Viols = append(r.Viols, e.extra[k])
	}
	fns := map[string]bool{}
	for _, c := range reached(top) {
		if c.id < 0 {
			continue
		}
		fns[c.fn.String()] = true
		r.Stats["contexts"]++
		r.Stats["blocks_interpreted"] += c.blocks
		r.Stats["calls_resolved"] += c.calls
	}
	for f := range fns {
		r.Stats["fn:"+f]++
	}
	r.Stats["instructions_interpreted"] += e.steps
	for k := range e.assumed {
		r.Assumed[k] = true
	}
	for k := range e.notes {
		r.Notes[k] = true
	}
}

// World is the loaded program and the state its initialisation leaves.
type World struct {
	prog     *ssa.Program
	pkg, scn *ssa.Package
	e        *Engine
	initRes  *Result
}

func load(dir string) *World {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: os.Environ()}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		fail("load: %v", err)
	}
	if packages.PrintErrors(pk) > 0 {
		fail("the program does not compile")
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog}
	for _, p := range pkgs {
		if p == nil {
			fail("a package has no SSA form")
		}
		switch p.Pkg.Name() {
		case "geoqlparser":
			w.pkg = p
		case "scanner":
			w.scn = p
		}
	}
	if w.pkg == nil || w.scn == nil {
		fail("packages geoqlparser and scanner not found")
	}
	return w
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "geoqlcheck: "+f+"\n", a...)
	os.Exit(2)
}

// initialise evaluates the package initialisers in both orders of map
// iteration; the resulting package state must be the same.
func (w *World) initialise() {
	r := newResult("init")
	w.initRes = r
	run := func(desc bool) *Engine {
		e := NewEngine(w.prog, w.pkg, w.scn)
		e.harvestThresholds(w.pkg, w.scn)
		e.initing, e.mapDesc = true, desc
		for _, p := range []*ssa.Package{w.scn, w.pkg} {
			st := newState(e)
			fn := p.Func("init")
			outs, top := e.root(fn, st, nil)
			r.absorb(e, top)
			if len(outs) != 1 || outs[0].pan != nil {
				panic(undecidable{"initialisation of " + p.Pkg.Path() + " has " + strconv.Itoa(len(outs)) + " outcomes"})
			}
			e.ctxs = map[string]*Ctx{}
		}
		e.initing = false
		return e
	}
	a := run(false)
	b := run(true)
	da, db := a.describeGlobals(), b.describeGlobals()
	for _, k := range sortedKeys(da) {
		if da[k] != db[k] {
			r.add([]string{"C14"}, "init-order", k, "the value of package variable %s depends on the iteration order of a map", k)
		}
	}
	r.Stats["package_variables"] = len(da)
	w.e = a
}

// Finding is one line of the known findings file.
type Finding struct{ Prop, Text string }

func knownFindings(path string) (out []Finding) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.IndexByte(l, ' ')
		if i > 0 {
			out = append(out, Finding{l[:i], strings.TrimSpace(l[i:])})
		}
	}
	return
}

type runFn func(w *World, prop string, thorough bool) *Result

var runs = map[string]runFn{}

// plan lists the analyses that decide a property.
var plan = map[string][]string{}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("prop", "", "property id")
	only := flag.String("run", "", "run one analysis and print everything")
	serve := flag.String("serve", "", "answer the jobs of an analysis")
	repo := flag.String("repo", "/repo", "source tree")
	root := flag.String("verif", "/verif", "framework directory")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if p := os.Getenv("GEOQL_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			time.AfterFunc(40*time.Second, pprof.StopCPUProfile)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	w := load(*repo)
	if *serve != "" {
		w.initialise()
		checkServe(w)
		return
	}
	names := plan[*prop]
	if *only != "" {
		names = strings.Split(*only, ",")
	}
	if len(names) == 0 {
		fail("unknown property %q", *prop)
	}
	var results []*Result
	exec := func(name string, f func() *Result) {
		t := time.Now()
		var r *Result
		func() {
			defer func() {
				if x := recover(); x != nil {
					r = newResult(name)
					msg := ""
					if u, ok := x.(undecidable); ok {
						msg = u.msg
					} else if u, ok := x.(hopeless); ok {
						msg = u.msg
					} else {
						msg = fmt.Sprint(x)
						if debugViol || *only != "" {
							debug.PrintStack()
						}
					}
					r.Undecided = msg
					for _, e := range engines {
						for _, c := range e.allCtx {
							if c.lastRound == e.round {
								for _, k := range sortedKeys(c.viols) {
									r.Viols = append(r.Viols, c.viols[k])
								}
							}
						}
						for _, k := range sortedKeys(e.extra) {
							r.Viols = append(r.Viols, e.extra[k])
						}
					}
				}
			}()
			engines = nil
			r = f()
			for _, e := range engines {
				for _, k := range sortedKeys(e.undecided) {
					if r.Undecided != "" {
						r.Undecided += "; "
					}
					r.Undecided += k
				}
			}
		}()
		r.WallS = time.Since(t).Seconds()
		results = append(results, r)
	}
	exec("init", func() *Result { w.initialise(); return w.initRes })
	if w.e != nil {
		for _, n := range names {
			f, ok := runs[n]
			if !ok {
				fail("no analysis %q", n)
			}
			exec(n, func() *Result {
				r := f(w, *prop, tier == "thorough")
				for i, v := range r.Viols {
					if strings.Contains(v.Msg, "where the name of the value belongs") {
						r.Viols[i].Props = append(append([]string(nil), v.Props...), "C12")
					}
				}
				return r
			})
		}
	}
	if *only != "" {
		for _, r := range results {
			fmt.Printf("== %s %.2fs\n", r.Name, r.WallS)
			if r.Undecided != "" {
				fmt.Println("   UNDECIDED", r.Undecided)
			}
			for _, v := range dedup(r.Viols) {
				fmt.Println("  ", strings.Join(v.Props, ","), v.Kind, v.Pos, v.Msg)
			}
			for _, k := range sortedKeys(r.Stats) {
				if !strings.HasPrefix(k, "fn:") {
					fmt.Println("   stat", k, r.Stats[k])
				}
			}
			for _, k := range sortedKeys(r.Assumed) {
				fmt.Println("   assumed", k)
			}
			for _, k := range sortedKeys(r.Notes) {
				fmt.Println("   note", k)
			}
		}
		return
	}
	os.Exit(report(*prop, *root, tier, seed, results, t0))
}

func dedup(vs []Violation) (out []Violation) {
	seen := map[string]bool{}
	for _, v := range vs {
		k := strings.Join(v.Props, ",") + v.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return
}

func concerns(v Violation, prop string) bool {
	for _, p := range v.Props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

func report(prop, root, tier string, seed int, results []*Result, t0 time.Time) int {
	known := knownFindings(filepath.Join(root, "known_findings.txt"))
	var bad []Violation
	nKnown := 0
	for _, r := range results {
		for _, v := range dedup(r.Viols) {
			if !concerns(v, prop) {
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.Prop == prop && k.Text == v.Kind+" "+v.Pos+" "+v.Msg {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
					nKnown++
				}
			}
			if !isKnown {
				bad = append(bad, v)
			}
		}
	}
	cov := map[string]any{}
	stats := map[string]int{}
	fns := map[string]bool{}
	assumed := map[string]bool{}
	notes := map[string]bool{}
	var samples, rules []string
	per := map[string]any{}
	var undecided []string
	for _, r := range results {
		if r.Undecided != "" {
			undecided = append(undecided, r.Name+": "+r.Undecided)
		}
		for k, v := range r.Stats {
			if strings.HasPrefix(k, "fn:") {
				fns[strings.TrimPrefix(k, "fn:")] = true
				continue
			}
			stats[k] += v
		}
		for k := range r.Assumed {
			assumed[k] = true
		}
		for k := range r.Notes {
			notes[k] = true
		}
		samples = append(samples, r.Samples...)
		rules = append(rules, r.Rules...)
		per[r.Name] = map[string]any{"wall_s": r.WallS, "violations": len(r.Viols)}
	}
	var an []string
	for f := range fns {
		an = append(an, f)
	}
	sort.Strings(an)
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov["explanation"] = "Static analysis (abstract interpretation over SSA, dataflow fixpoint) of /repo's current source; the functions listed were analysed for every abstract entry state that reaches them. Rules: " + strings.Join(rules, "; ")
	cov["functions_analysed"] = an
	cov["functions_count"] = len(an)
	cov["counts"] = stats
	cov["analyses"] = per
	cov["samples"] = samples
	cov["rules"] = rules
	cov["precision_notes"] = sortedKeys(notes)
	cov["known_findings"] = nKnown
	cov["undecided"] = undecided
	asm := []string{"the models of strings, strconv, fmt, sort, time, math, unicode, bytes and errors agree with the standard library"}
	for _, k := range sortedKeys(assumed) {
		asm = append(asm, "external function assumed pure: "+k)
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": asm, "wall_s": time.Since(t0).Seconds(), "violations": len(bad)}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(root, "evidence", prop+".json")
	if err := os.WriteFile(evPath, append(data, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	for _, u := range undecided {
		fmt.Printf("UNDECIDED property=%s: part of the code is outside what the analysis can follow: %s\n", prop, u)
	}
	if len(bad) == 0 {
		fmt.Printf("property=%s held: %d functions, %d abstract contexts, %d instructions interpreted\n", prop, len(an), stats["contexts"], stats["instructions_interpreted"])
		return 0
	}
	rp := filepath.Join(root, "evidence", prop+".violations.txt")
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s %s %s\n", v.Kind, v.Pos, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range bad {
		if i >= 20 {
			break
		}
		fmt.Printf("  %s %s: %s\n", v.Kind, v.Pos, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

// partial says whether some path could not be followed.
func (r *Result) partial() bool { return r.gaps }
