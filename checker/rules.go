package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Finding is one construct which breaks a rule.
type Finding struct {
	Rule, Construct, Pos, Msg string
}

func (f Finding) key() string { return f.Rule + "|" + f.Construct }

// Run is one run of the check of a property.
type Run struct {
	p        *Prog
	id       string
	thorough bool
	verif    string
	start    time.Time

	finds   map[string]Finding
	order   []string
	obl     map[string]bool // obligations by rule and construct: discharged or not
	counts  map[string]int
	samples []string
	sampled map[string]int
	rules   []string
	assume  []string
	funcs   map[*ssa.Function]bool
	unknown map[string]int
	steps   int
	step    int

	nonNil map[string]bool
}

func (r *Run) rule(text string)      { r.rules = append(r.rules, text) }
func (r *Run) assumes(t string)      { r.assume = append(r.assume, t) }
func (r *Run) count(k string, n int) { r.counts[k] += n }

// sample keeps a few discharged obligations for the evidence.
func (r *Run) sample(rule, s string) {
	if r.sampled[rule] < 3 {
		r.sampled[rule]++
		r.samples = append(r.samples, rule+": "+s)
	}
}

// oblige records one obligation; a failed one is a finding.
func (r *Run) oblige(rule, construct, pos string, ok bool, msg string) bool {
	k := rule + "|" + construct
	if ok {
		if _, seen := r.obl[k]; !seen {
			r.obl[k] = true
			r.sample(rule, construct+" ("+pos+")")
		}
		return true
	}
	r.obl[k] = false
	if _, seen := r.finds[k]; !seen {
		r.finds[k] = Finding{rule, construct, pos, msg}
		r.order = append(r.order, k)
	}
	return false
}

func (r *Run) fail(rule, construct, pos, msg string) { r.oblige(rule, construct, pos, false, msg) }

// need resolves a function which a rule is anchored at.
func (r *Run) need(name string) *ssa.Function {
	f := r.p.fn(name)
	if f == nil || f.Blocks == nil {
		r.fail("anchor", name, "", "the function "+name+", which the rule is anchored at, does not exist")
		return nil
	}
	return f
}

func (r *Run) engine() *Engine {
	e := newEngine(r.p)
	for k := range r.nonNilFields() {
		e.nonNilField[k] = true
	}
	e.unknown = r.unknown
	e.visited = r.funcs
	return e
}

// guard runs an analysis; running out of budget means that nothing was established.
func (r *Run) guard(construct string, e *Engine, f func()) (ok bool) {
	if r.step > 0 {
		e.budget = r.step
	}
	if os.Getenv("EMBER_TIME") != "" {
		t := time.Now()
		fmt.Println("start", construct)
		defer func() { fmt.Println("end", construct, time.Since(t), e.steps) }()
	}
	defer func() {
		r.steps += e.steps
		if x := recover(); x != nil {
			b, isB := x.(budgetErr)
			if !isB {
				panic(x)
			}
			r.fail("analysis", construct, "", "nothing could be established: "+b.msg)
			ok = false
		}
	}()
	f()
	return true
}

// exported is the nearest exported function of the call stack: it names a finding independently of how the code below is cut into functions.
func (e *Engine) exported() string {
	for i := len(e.stack) - 1; i >= 0; i-- {
		f := e.stack[i]
		for f.Parent() != nil {
			f = f.Parent()
		}
		if token.IsExported(f.Name()) {
			return e.short(f)
		}
	}
	if len(e.stack) > 0 {
		return e.short(e.stack[0])
	}
	return "?"
}

// freshArgs are unknown arguments; pointers are not nil.
func (e *Engine) freshArgs(f *ssa.Function) []Val {
	var args []Val
	for _, pa := range f.Params {
		v := e.fresh(pa.Type(), pa.Name())
		if s, ok := v.(VSym); ok && isPtr(pa.Type()) {
			e.nonNil[s.S] = true
		}
		args = append(args, v)
	}
	return args
}

func (e *Engine) call(st *State, f *ssa.Function, args []Val) []Exit {
	e.roots = append(e.roots, args...)
	return e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: args, Sig: f.Signature})
}

// errOf is the error among the results of a function, if it has one.
func errOf(e *Engine, sig *types.Signature, res Val) (Val, bool) {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if !e.isErrT(sig.Results().At(i).Type()) {
			continue
		}
		if n == 1 {
			return res, true
		}
		return res.(VTuple)[i], true
	}
	return nil, false
}

func resAt(sig *types.Signature, res Val, i int) Val {
	if sig.Results().Len() == 1 {
		return res
	}
	return res.(VTuple)[i]
}

// methodsOf lists the methods declared on a type of the module (pointer or value receiver).
func (p *Prog) methodsOf(tn string) []*ssa.Function {
	t := p.typ(tn)
	if t == nil {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		recv := f.Signature.Recv()
		if recv == nil || f.Parent() != nil {
			continue
		}
		rt := recv.Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		if types.Identical(rt, t) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func isExported(f *ssa.Function) bool { return token.IsExported(f.Name()) }

// ---- known findings

type known struct {
	status, prop, key, text string
}

func readKnown(path string) ([]known, error) {
	fh, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer fh.Close()
	var out []known
	sc := bufio.NewScanner(fh)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		k := known{status: "known"}
		head, text, _ := strings.Cut(l, " :: ")
		k.text = text
		for head != "" {
			var w string
			if strings.HasPrefix(head, "key=") {
				w, head = head, ""
			} else {
				w, head, _ = strings.Cut(head, " ")
			}
			if v, ok := strings.CutPrefix(w, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(w, "key="); ok {
				k.key = v
			}
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

// ---- result

func (r *Run) finish(level, explanation string) int {
	kn, err := readKnown(filepath.Join(r.verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if len(r.obl) == 0 {
		r.fail("coverage", r.id, "", "no obligation was found: the constructs the rule is about are gone")
	}
	viol := 0
	var replay []string
	dis := 0
	for _, ok := range r.obl {
		if ok {
			dis++
		}
	}
	var known []string
	for _, k := range r.order {
		f := r.finds[k]
		listed := false
		for _, n := range kn {
			if n.prop == r.id && n.key == k {
				listed = true
				known = append(known, k)
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.id, f.Construct, n.text)
			}
		}
		if listed {
			continue
		}
		viol++
		replay = append(replay, fmt.Sprintf("rule %s\n  construct %s\n  at %s\n  %s", f.Rule, f.Construct, f.Pos, f.Msg))
	}
	var fns []string
	for f := range r.funcs {
		if f.Synthetic == "" {
			fns = append(fns, r.p.short(f))
		}
	}
	sort.Strings(fns)
	sort.Strings(r.samples)
	cov := map[string]interface{}{
		"explanation":        explanation,
		"rules":              r.rules,
		"obligations":        len(r.obl),
		"discharged":         dis,
		"known_findings":     len(known),
		"functions_analysed": len(fns),
		"functions":          fns,
		"samples":            r.samples,
	}
	if r.steps > 0 {
		cov["abstract_steps"] = r.steps
	}
	for k, n := range r.counts {
		cov[k] = n
	}
	if len(r.unknown) > 0 {
		cov["unknown_callees"] = r.unknown
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := "quick"
	if r.thorough {
		tier = "thorough"
	}
	ev := map[string]interface{}{"property": r.id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": r.assume, "wall_s": time.Since(r.start).Seconds(), "violations": viol}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(r.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", r.id, len(r.obl), dis, len(fns), time.Since(r.start).Seconds())
	if viol == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.id+".violations.txt")
	os.WriteFile(rp, []byte(strings.Join(replay, "\n")+"\n"), 0o644)
	for _, l := range replay {
		fmt.Println(l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}
