package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = check{run: (*Run).c26, expl: "Dataflow over the SSA form of every formatting call: the sources of the format (constants, concatenations, branches, tables, helpers and their callers) and of the arguments are followed on every combination of branches; each resulting format is parsed and its directives are compared with the number and the types of the arguments. Functions which pass a format and arguments on are found by a fixpoint and their calls are checked alike."}
}

// Text as far as it is known: pieces of a format.
const (
	fLit    = iota
	fSafe   // unknown, without any '%' (numbers)
	fOpaque // written by the program, of unknown shape
	fData   // anything: what was received, or given by the user
	fParam  // the format given to a function which passes it on
)

type fpart struct {
	kind int
	s    string
	v    ssa.Value
}

// A frame is an activation of a function while values are traced: call is nil while the caller is not chosen.
type fframe struct {
	fn     *ssa.Function
	call   ssa.CallInstruction
	parent *fframe
	subs   map[ssa.CallInstruction]*fframe
}

func (f *fframe) sub(c ssa.CallInstruction, fn *ssa.Function) *fframe {
	if f.subs == nil {
		f.subs = map[ssa.CallInstruction]*fframe{}
	}
	if g := f.subs[c]; g != nil && g.fn == fn {
		return g
	}
	g := &fframe{fn: fn, call: c, parent: f}
	f.subs[c] = g
	return g
}

func (f *fframe) depth() int {
	n := 0
	for ; f != nil; f = f.parent {
		n++
	}
	return n
}

type fkey struct {
	f  *fframe
	at interface{}
}

// A fmtScan follows one combination of choices (branches, callers, stores) at a time.
type fmtScan struct {
	p       *Prog
	funcs   []*ssa.Function
	calls   map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool
	fields  map[string][]ssa.Value
	globals map[*ssa.Global][]ssa.Value
	clos    map[*ssa.Function][]*ssa.MakeClosure
	printf  map[*ssa.Function]fkind
	println map[*ssa.Function]bool

	wrap   *ssa.Function // the function whose variadic arguments are passed on
	dec    []int
	lim    []int
	at     int
	bound  map[fkey]int
	active map[fkey]bool
	over   bool
}

type fkind struct {
	idx  int // of the format among the parameters (with the receiver)
	errf bool
}

func (s *fmtScan) pick(f *fframe, at interface{}, n int) int {
	k := fkey{f, at}
	if i, ok := s.bound[k]; ok {
		return i
	}
	if s.at == len(s.dec) {
		s.dec = append(s.dec, 0)
		s.lim = append(s.lim, n)
	}
	i := s.dec[s.at]
	s.lim[s.at] = n
	s.at++
	s.bound[k] = i
	return i
}

// each runs f for every combination of choices.
func (s *fmtScan) each(f func()) {
	s.dec, s.lim = nil, nil
	for n := 0; ; n++ {
		s.at, s.bound, s.active, s.wrap = 0, map[fkey]int{}, map[fkey]bool{}, nil
		f()
		s.dec, s.lim = s.dec[:s.at], s.lim[:s.at]
		for len(s.dec) > 0 && s.dec[len(s.dec)-1]+1 >= s.lim[len(s.lim)-1] {
			s.dec, s.lim = s.dec[:len(s.dec)-1], s.lim[:len(s.lim)-1]
		}
		if len(s.dec) == 0 {
			return
		}
		if n > 4000 {
			s.over = true
			return
		}
		s.dec[len(s.dec)-1]++
	}
}

func fieldKeyOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func exportedField(t types.Type, i int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	st, ok2 := t.Underlying().(*types.Struct)
	return ok && ok2 && n.Obj().Exported() && st.Field(i).Exported()
}

func newFmtScan(p *Prog) *fmtScan {
	s := &fmtScan{p: p, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, fields: map[string][]ssa.Value{}, globals: map[*ssa.Global][]ssa.Value{}, clos: map[*ssa.Function][]*ssa.MakeClosure{}, printf: map[*ssa.Function]fkind{}, println: map[*ssa.Function]bool{}}
	s.funcs = append(s.funcs, p.funcs...)
	for _, sp := range p.spkgs {
		if f := sp.Func("init"); f != nil {
			s.funcs = append(s.funcs, f)
		}
	}
	for _, f := range s.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						s.calls[g] = append(s.calls[g], c)
					}
					if !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKeyOf(a.X.Type(), a.Field)
						s.fields[k] = append(s.fields[k], x.Val)
					case *ssa.Global:
						s.globals[a] = append(s.globals[a], x.Val)
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					s.clos[g] = append(s.clos[g], x)
					for _, u := range *x.Referrers() {
						if c, ok := u.(ssa.CallInstruction); ok && c.Common().Value == x {
							continue
						}
						s.taken[g] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && ssa.Value(g) != callee {
						s.taken[g] = true
					}
				}
				if callee != nil {
					for _, a := range in.(ssa.CallInstruction).Common().Args {
						if g, ok := a.(*ssa.Function); ok {
							s.taken[g] = true
						}
					}
				}
			}
		}
	}
	// functions which pass a format and its arguments on
	for changed := true; changed; {
		changed = false
		for _, f := range s.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if k, is := s.kind(c); is {
						s.each(func() {
							fr := &fframe{fn: f}
							a := s.args(fr, s.varargs(c), 0)
							if a.rest == nil {
								return
							}
							s.wrap = a.rest
							for _, q := range s.text(fr, s.operand(c, k.idx), 0) {
								if q.kind == fParam {
									g := q.v.(*ssa.Parameter)
									if _, known := s.printf[a.rest]; !known && g.Parent() == a.rest {
										s.printf[a.rest] = fkind{paramIndex(g), k.errf}
										changed = true
									}
								}
							}
						})
					}
					if s.isPrintln(c) {
						s.each(func() {
							a := s.args(&fframe{fn: f}, s.varargs(c), 0)
							if a.rest != nil && len(a.list) == 0 && !s.println[a.rest] {
								s.println[a.rest] = true
								changed = true
							}
						})
					}
				}
			}
		}
	}
	return s
}

func paramIndex(q *ssa.Parameter) int {
	for i, x := range q.Parent().Params {
		if x == q {
			return i
		}
	}
	return -1
}

// operand is the value given for a parameter, counted with the receiver.
func (s *fmtScan) operand(c ssa.CallInstruction, i int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	} else if cc.StaticCallee() == nil && cc.Signature().Recv() == nil {
		if d := cc.Signature().Params().Len() - len(cc.Args); d != 0 {
			i -= d
		}
	}
	if i < 0 || i >= len(cc.Args) {
		return nil
	}
	return cc.Args[i]
}

func (s *fmtScan) varargs(c ssa.CallInstruction) ssa.Value {
	a := c.Common().Args
	if len(a) == 0 {
		return nil
	}
	return a[len(a)-1]
}

func variadicAny(sig *types.Signature) bool {
	if !sig.Variadic() {
		return false
	}
	sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	it, ok := sl.Elem().Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

var stdPrintf = map[string]fkind{
	"fmt.Printf": {0, false}, "fmt.Sprintf": {0, false}, "fmt.Errorf": {0, true}, "fmt.Fprintf": {1, false}, "fmt.Appendf": {1, false},
	"log.Printf": {0, false}, "log.Fatalf": {0, false}, "log.Panicf": {0, false},
	"(*log.Logger).Printf": {1, false}, "(*log.Logger).Fatalf": {1, false}, "(*log.Logger).Panicf": {1, false},
}

var stdPrintln = map[string]bool{"fmt.Print": true, "fmt.Println": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Fprint": true, "fmt.Fprintln": true, "log.Print": true, "log.Println": true, "log.Fatal": true, "log.Fatalln": true, "log.Panic": true, "log.Panicln": true, "(*log.Logger).Print": true, "(*log.Logger).Println": true, "(*log.Logger).Fatal": true, "(*log.Logger).Panic": true}

// targets are the functions which a call may reach, as far as they are known.
func (s *fmtScan) targets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return s.implementations(cc.Method, cc.Value.Type())
	}
	if g := cc.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	return s.functions(cc.Value, map[ssa.Value]bool{})
}

func (s *fmtScan) implementations(m *types.Func, t types.Type) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, sp := range s.p.spkgs {
		for _, mem := range sp.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, x := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(x, it) {
					if f := s.p.prog.LookupMethod(x, m.Pkg(), m.Name()); f != nil {
						out = append(out, s.real(f))
						break
					}
				}
			}
		}
	}
	return out
}

// real is the declared function behind a wrapper made by the compiler.
func (s *fmtScan) real(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if g := s.p.prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

func (s *fmtScan) functions(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	var out []*ssa.Function
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{s.real(x)}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
			if sg := o.Type().(*types.Signature); sg.Recv() != nil && types.IsInterface(sg.Recv().Type()) {
				return s.implementations(o, sg.Recv().Type())
			}
			return []*ssa.Function{s.real(g)}
		}
		return []*ssa.Function{g}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, s.functions(e, seen)...)
		}
	case *ssa.ChangeType:
		return s.functions(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			vs, _ := s.stored(x.X)
			for _, w := range vs {
				out = append(out, s.functions(w, seen)...)
			}
		}
	case *ssa.FreeVar, *ssa.Parameter:
		for _, w := range s.given(v) {
			out = append(out, s.functions(w, seen)...)
		}
	}
	return out
}

// given are the values a parameter or a captured variable gets from the calls in the repository.
func (s *fmtScan) given(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	switch x := v.(type) {
	case *ssa.Parameter:
		for _, c := range s.calls[x.Parent()] {
			if i := paramIndex(x); i < len(c.Common().Args) {
				out = append(out, c.Common().Args[i])
			}
		}
	case *ssa.FreeVar:
		for i, w := range x.Parent().FreeVars {
			if w == x {
				for _, m := range s.clos[x.Parent()] {
					out = append(out, m.Bindings[i])
				}
			}
		}
	}
	return out
}

// stored are the values stored at an address; known is false when there may be others.
func (s *fmtScan) stored(a ssa.Value) (vs []ssa.Value, known bool) {
	known = true
	switch x := a.(type) {
	case *ssa.Global:
		vs = append(vs, s.globals[x]...)
		if token.IsExported(x.Name()) {
			known = false
		}
	case *ssa.FieldAddr:
		vs = append(vs, s.fields[fieldKeyOf(x.X.Type(), x.Field)]...)
		known = !exportedField(x.X.Type(), x.Field)
	case *ssa.FreeVar:
		for _, b := range s.given(x) {
			w, k := s.stored(b)
			vs, known = append(vs, w...), known && k
		}
	case *ssa.Alloc:
		s.allocStores(x, &vs, &known)
	case *ssa.IndexAddr:
		return s.elements(x.X, map[ssa.Value]bool{})
	default:
		known = false
	}
	return vs, known
}

func (s *fmtScan) allocStores(x ssa.Value, vs *[]ssa.Value, known *bool) {
	if x.Referrers() == nil {
		return
	}
	for _, u := range *x.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == x {
				*vs = append(*vs, u.Val)
			} else {
				*known = false
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == x {
					s.allocStores(u.Fn.(*ssa.Function).FreeVars[i], vs, known)
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			*known = false
		}
	}
}

// elements are the values held by an array, a slice or a map.
func (s *fmtScan) elements(v ssa.Value, seen map[ssa.Value]bool) (vs []ssa.Value, known bool) {
	if v == nil || seen[v] {
		return nil, true
	}
	seen[v] = true
	known = true
	add := func(w []ssa.Value, k bool) { vs, known = append(vs, w...), known && k }
	direct := func(x ssa.Value) {
		if x.Referrers() == nil {
			return
		}
		for _, u := range *x.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						vs = append(vs, st.Val)
					}
				}
			case *ssa.MapUpdate:
				if u.Map == x {
					vs = append(vs, u.Value)
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		direct(x)
		var w []ssa.Value
		k := true
		s.allocStores(x, &w, &k)
		for _, y := range w {
			add(s.elements(y, seen))
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		direct(v)
	case *ssa.Slice:
		direct(v)
		add(s.elements(x.X, seen))
	case *ssa.Global:
		direct(v)
		for _, w := range s.globals[x] {
			add(s.elements(w, seen))
		}
	case *ssa.UnOp:
		direct(v)
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				add(s.elements(al, seen))
				break
			}
			w, k := s.stored(x.X)
			known = known && k
			for _, y := range w {
				add(s.elements(y, seen))
			}
		} else {
			known = false
		}
	case *ssa.FieldAddr:
		direct(v)
		w, k := s.stored(x)
		known = known && k
		for _, y := range w {
			add(s.elements(y, seen))
		}
	case *ssa.Phi:
		direct(v)
		for _, y := range x.Edges {
			add(s.elements(y, seen))
		}
	case *ssa.Const:
		known = true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, y := range x.Call.Args {
				add(s.elements(y, seen))
			}
			break
		}
		known = false
	default:
		known = false
	}
	return vs, known
}

func lit(t string) []fpart { return []fpart{{kind: fLit, s: t}} }
func some(k int) []fpart   { return []fpart{{kind: k}} }

func worst(l []fpart) []fpart {
	for _, q := range l {
		if q.kind == fData || q.kind == fParam {
			return some(fData)
		}
	}
	return some(fOpaque)
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// safeType: the text of a value has no '%'.
func safeType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.NumMethods() > 0 {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

// text traces a string.
func (s *fmtScan) text(fr *fframe, v ssa.Value, depth int) []fpart {
	if v == nil {
		return some(fData)
	}
	if depth > 60 {
		return some(fOpaque)
	}
	k := fkey{fr, v}
	if s.active[k] {
		return some(fOpaque) // what a loop adds to itself
	}
	s.active[k] = true
	defer delete(s.active, k)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return lit(constant.StringVal(x.Value))
		}
		if x.Value == nil || x.Value.Kind() == constant.Int {
			return some(fSafe)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return append(append([]fpart{}, s.text(fr, x.X, depth+1)...), s.text(fr, x.Y, depth+1)...)
		}
	case *ssa.Phi:
		return s.text(fr, x.Edges[s.pick(fr, x.Block(), len(x.Edges))], depth+1)
	case *ssa.ChangeType:
		return s.text(fr, x.X, depth+1)
	case *ssa.Convert:
		if isText(x.X.Type()) {
			return s.text(fr, x.X, depth+1)
		}
	case *ssa.MakeInterface:
		if isText(x.X.Type()) {
			return s.text(fr, x.X, depth+1)
		}
		if safeType(x.X.Type()) {
			return some(fSafe)
		}
	case *ssa.Slice:
		if isText(x.X.Type()) {
			return worst(s.text(fr, x.X, depth+1))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.oneOf(fr, x, x.X, depth, s.stored)
		}
	case *ssa.Field:
		return s.oneOf(fr, x, x.X, depth, func(a ssa.Value) ([]ssa.Value, bool) {
			return s.fields[fieldKeyOf(a.Type(), x.Field)], !exportedField(a.Type(), x.Field)
		})
	case *ssa.Index:
		return s.oneOf(fr, x, x.X, depth, func(a ssa.Value) ([]ssa.Value, bool) { return s.elements(a, map[ssa.Value]bool{}) })
	case *ssa.Lookup:
		return s.oneOf(fr, x, x.X, depth, func(a ssa.Value) ([]ssa.Value, bool) { return s.elements(a, map[ssa.Value]bool{}) })
	case *ssa.FreeVar:
		if w := s.given(x); len(w) > 0 {
			y := w[s.pick(fr, x, len(w))]
			return s.text(&fframe{fn: x.Parent().Parent()}, y, depth+1)
		}
	case *ssa.Parameter:
		if x.Parent() == s.wrap && (fr.call == nil || fr.fn != x.Parent()) {
			return []fpart{{kind: fParam, v: x}}
		}
		if y, up := s.argument(fr, x); y != nil {
			return s.text(up, y, depth+1)
		}
		if fr.depth() > 8 {
			return some(fOpaque)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return s.result(fr, t, x.Index, depth)
		case *ssa.Lookup:
			return s.oneOf(fr, x, t.X, depth, func(a ssa.Value) ([]ssa.Value, bool) { return s.elements(a, map[ssa.Value]bool{}) })
		}
	case *ssa.Call:
		return s.result(fr, x, 0, depth)
	}
	return some(fData)
}

// mayHold: some path leads from data to a text; every path counts, possible or not.
func (s *fmtScan) mayHold(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	anyOf := func(vs []ssa.Value, known bool) bool {
		if !known || len(vs) == 0 {
			return true
		}
		for _, y := range vs {
			if s.mayHold(y, seen) {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return s.mayHold(x.X, seen) || s.mayHold(x.Y, seen)
	case *ssa.Phi:
		return anyOf(x.Edges, true)
	case *ssa.ChangeType:
		return s.mayHold(x.X, seen)
	case *ssa.MakeInterface:
		return !safeType(x.X.Type()) && s.mayHold(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return anyOf(s.stored(x.X))
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() == nil && token.IsExported(f.Name()) || s.taken[f] {
			return true
		}
		return anyOf(s.given(x), true)
	case *ssa.Call, *ssa.Extract:
		i := 0
		c, ok := x.(*ssa.Call)
		if e, isE := x.(*ssa.Extract); isE {
			i = e.Index
			c, ok = e.Tuple.(*ssa.Call)
		}
		if !ok {
			break
		}
		g := c.Call.StaticCallee()
		if g == nil {
			return true
		}
		if len(g.Blocks) > 0 && g.Pkg != nil && s.p.repo[g.Pkg.Pkg.Path()] {
			var vs []ssa.Value
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(rt.Results) {
					vs = append(vs, rt.Results[i])
				}
			}
			return anyOf(vs, true)
		}
		if g.String() == "fmt.Sprintf" {
			fr := &fframe{fn: c.Parent()}
			hold := false
			var given []ssa.Value
			s.each(func() {
				a := s.args(fr, s.varargs(c), 0)
				if !a.ok || a.rest != nil {
					hold = true
				}
				for _, y := range a.list {
					if y.v != nil && !safeType(y.v.Type()) {
						given = append(given, y.v)
					}
				}
			})
			for _, y := range given {
				hold = hold || s.mayHold(y, seen)
			}
			return hold || s.mayHold(c.Call.Args[0], seen)
		}
	}
	k := &fframe{}
	if in, ok := v.(interface{ Parent() *ssa.Function }); ok {
		k.fn = in.Parent()
	}
	data := false
	s.each(func() {
		for _, q := range s.text(k, v, 0) {
			data = data || q.kind == fData || q.kind == fParam
		}
	})
	return data
}

func (s *fmtScan) oneOf(fr *fframe, at, a ssa.Value, depth int, f func(ssa.Value) ([]ssa.Value, bool)) []fpart {
	vs, known := f(a)
	if !known || len(vs) == 0 {
		return some(fData)
	}
	y := vs[s.pick(fr, at, len(vs))]
	g := fr
	if in, ok := y.(interface{ Parent() *ssa.Function }); ok && in.Parent() != nil && in.Parent() != fr.fn {
		g = &fframe{fn: in.Parent()}
	}
	return s.text(g, y, depth+1)
}

// argument is what a parameter holds: that of the call followed, or of one of the callers.
func (s *fmtScan) argument(fr *fframe, x *ssa.Parameter) (ssa.Value, *fframe) {
	i := paramIndex(x)
	if fr.fn != x.Parent() || fr.depth() > 8 {
		return nil, nil
	}
	if fr.call == nil {
		f := x.Parent()
		if f.Parent() == nil && token.IsExported(f.Name()) || s.taken[f] || len(s.calls[f]) == 0 {
			return nil, nil
		}
		cs := s.calls[f]
		fr.call = cs[s.pick(fr, f, len(cs))]
		fr.parent = &fframe{fn: fr.call.Parent()}
	}
	if a := fr.call.Common().Args; i < len(a) {
		return a[i], fr.parent
	}
	return nil, nil
}

func (s *fmtScan) result(fr *fframe, c *ssa.Call, i, depth int) []fpart {
	g := c.Call.StaticCallee()
	if g == nil {
		return some(fData)
	}
	name := g.String()
	all := func(vs ...ssa.Value) []fpart {
		var l []fpart
		for _, y := range vs {
			if isText(y.Type()) {
				l = append(l, s.text(fr, y, depth+1)...)
			}
		}
		return worst(l)
	}
	switch {
	case name == "fmt.Sprintf":
		return s.formatted(fr, c, depth)
	case stdPrintln[name] && strings.HasPrefix(name, "fmt.Sprint"):
		a := s.args(fr, c.Call.Args[0], depth)
		if !a.ok || a.rest != nil {
			return some(fData)
		}
		var l []fpart
		for _, y := range a.list {
			l = append(l, s.argText(y, depth)...)
		}
		if len(l) == 1 && name == "fmt.Sprint" {
			return l
		}
		return worst(l)
	case strings.HasPrefix(name, "strconv.Format") || name == "strconv.Itoa":
		return some(fSafe)
	case name == "strings.Join":
		vs, known := s.elements(c.Call.Args[0], map[ssa.Value]bool{})
		if !known {
			return some(fData)
		}
		return all(append(vs, c.Call.Args[1])...)
	case name == "strings.ReplaceAll":
		if o, ok := c.Call.Args[1].(*ssa.Const); ok && constant.StringVal(o.Value) == "%" {
			return some(fOpaque)
		}
		return all(c.Call.Args...)
	case strings.HasPrefix(name, "strings."):
		return all(c.Call.Args...)
	case name == "(*strings.Builder).String" || name == "(*bytes.Buffer).String":
		b := c.Call.Args[0]
		if b.Referrers() == nil {
			return some(fData)
		}
		var l []fpart
		for _, u := range *b.Referrers() {
			w, ok := u.(ssa.CallInstruction)
			if !ok {
				if mi, ok := u.(*ssa.MakeInterface); ok {
					for _, u2 := range *mi.Referrers() {
						if w, ok := u2.(*ssa.Call); ok && w.Call.StaticCallee() != nil && w.Call.StaticCallee().String() == "fmt.Fprintf" {
							l = append(l, s.formatted(fr, w, depth)...)
						} else {
							l = append(l, some(fData)...)
						}
					}
					continue
				}
				return some(fData)
			}
			n := ""
			if q := w.Common().StaticCallee(); q != nil {
				n = q.Name()
			}
			switch n {
			case "WriteString":
				l = append(l, s.text(fr, w.Common().Args[1], depth+1)...)
			case "WriteByte", "WriteRune":
				if _, isC := w.Common().Args[1].(*ssa.Const); !isC {
					l = append(l, some(fData)...)
				}
			case "String", "Len", "Reset", "Grow", "Cap":
			default:
				l = append(l, some(fData)...)
			}
		}
		return worst(l)
	}
	if len(g.Blocks) > 0 && (g.Pkg == nil || s.p.repo[g.Pkg.Pkg.Path()]) && fr.depth() < 8 {
		var rets []*ssa.Return
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(rt.Results) {
				rets = append(rets, rt)
			}
		}
		if len(rets) > 0 {
			sub := fr.sub(c, g)
			return s.text(sub, rets[s.pick(sub, g, len(rets))].Results[i], depth+1)
		}
	}
	return some(fData)
}

// formatted is the text a formatting call makes.
func (s *fmtScan) formatted(fr *fframe, c *ssa.Call, depth int) []fpart {
	k, _ := stdPrintf[c.Call.StaticCallee().String()]
	f := s.text(fr, c.Call.Args[k.idx], depth+1)
	a := s.args(fr, s.varargs(c), depth)
	t, ok := flat(f)
	if !ok || !a.ok || a.rest != nil {
		return some(fData)
	}
	var out []fpart
	n := 0
	for _, d := range directives(t) {
		switch {
		case d.verb == 0:
			out = append(out, lit(d.text)...)
		case d.verb == '%':
			out = append(out, lit("%")...)
		default:
			n += d.stars
			if n >= len(a.list) || d.indexed {
				return some(fData)
			}
			switch {
			case d.verb == 'x' || d.verb == 'X':
				out = append(out, some(fSafe)...)
			case strings.ContainsRune("cqU", d.verb):
				out = append(out, some(fData)...) // a character may be a '%'
			default:
				out = append(out, s.argText(a.list[n], depth)...)
			}
			n++
		}
	}
	return out
}

func (s *fmtScan) argText(a farg, depth int) []fpart {
	if a.v == nil {
		return some(fSafe)
	}
	if isText(a.v.Type()) {
		return s.text(a.fr, a.v, depth+1)
	}
	if safeType(a.v.Type()) {
		return some(fSafe)
	}
	return some(fData)
}

// flat is the text of a format of which only numbers are unknown.
func flat(l []fpart) (string, bool) {
	t := ""
	for _, q := range l {
		switch q.kind {
		case fLit:
			t += q.s
		case fSafe:
			t += "1"
		default:
			return "", false
		}
	}
	return t, true
}

type farg struct {
	v  ssa.Value // without its conversion to an interface; nil is the nil interface
	fr *fframe
	t  types.Type
}

type fargs struct {
	list []farg
	rest *ssa.Function // the variadic arguments of this function follow
	ok   bool
}

// args traces the variadic arguments of a call.
func (s *fmtScan) args(fr *fframe, v ssa.Value, depth int) fargs {
	if v == nil || depth > 60 {
		return fargs{}
	}
	k := fkey{fr, v}
	if s.active[k] {
		return fargs{}
	}
	s.active[k] = true
	defer delete(s.active, k)
	switch x := v.(type) {
	case *ssa.Const:
		return fargs{ok: x.Value == nil}
	case *ssa.Phi:
		return s.args(fr, x.Edges[s.pick(fr, x.Block(), len(x.Edges))], depth+1)
	case *ssa.ChangeType:
		return s.args(fr, x.X, depth+1)
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			return fargs{}
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return fargs{}
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return fargs{}
		}
		out := fargs{list: make([]farg, at.Len()), ok: true}
		for _, u := range *al.Referrers() {
			ia, isI := u.(*ssa.IndexAddr)
			if !isI {
				continue
			}
			i, isC := ia.Index.(*ssa.Const)
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					if !isC {
						return fargs{}
					}
					out.list[i.Int64()] = s.arg(fr, st.Val, depth)
				}
			}
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			a, c := s.args(fr, x.Call.Args[0], depth+1), s.args(fr, x.Call.Args[1], depth+1)
			if !a.ok || !c.ok || a.rest != nil {
				return fargs{rest: c.rest}
			}
			return fargs{list: append(append([]farg{}, a.list...), c.list...), rest: c.rest, ok: true}
		}
	case *ssa.MakeSlice:
		// made with a capacity, and filled by appending
		if n, ok := x.Len.(*ssa.Const); ok && n.Int64() == 0 {
			return fargs{ok: true}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if vs, known := s.stored(x.X); known && len(vs) > 0 {
				y := vs[s.pick(fr, x, len(vs))]
				g := fr
				if in, ok := y.(interface{ Parent() *ssa.Function }); ok && in.Parent() != nil && in.Parent() != fr.fn {
					g = &fframe{fn: in.Parent()}
				}
				return s.args(g, y, depth+1)
			}
		}
	case *ssa.FreeVar:
		if w := s.given(x); len(w) > 0 {
			return s.args(&fframe{fn: x.Parent().Parent()}, w[s.pick(fr, x, len(w))], depth+1)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if fr.fn == f && fr.call == nil && f.Signature.Variadic() && paramIndex(x) == len(f.Params)-1 {
			return fargs{rest: f, ok: true}
		}
		if y, up := s.argument(fr, x); y != nil {
			return s.args(up, y, depth+1)
		}
	}
	return fargs{}
}

// arg traces one argument to what it was before it became an interface.
func (s *fmtScan) arg(fr *fframe, v ssa.Value, depth int) farg {
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return farg{x.X, fr, x.X.Type()}
		case *ssa.ChangeInterface:
			return farg{x, fr, x.X.Type()}
		case *ssa.Const:
			if x.Value == nil && types.IsInterface(x.Type()) {
				return farg{}
			}
		case *ssa.Phi:
			v = x.Edges[s.pick(fr, x.Block(), len(x.Edges))]
			continue
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if vs, known := s.stored(al); known && len(vs) == 1 {
					v = vs[0]
					continue
				}
			}
		}
		break
	}
	return farg{v, fr, v.Type()}
}

type directive struct {
	text    string
	verb    rune // 0: plain text
	stars   int
	indexed bool
}

func directives(t string) []directive {
	var out []directive
	r := []rune(t)
	start := 0
	for i := 0; i < len(r); {
		if r[i] != '%' {
			i++
			continue
		}
		if i > start {
			out = append(out, directive{text: string(r[start:i])})
		}
		from := i
		d := directive{}
		i++
		for i < len(r) && strings.ContainsRune("+-# 0123456789.*[]", r[i]) {
			if r[i] == '*' {
				d.stars++
			}
			if r[i] == '[' {
				d.indexed = true
			}
			i++
		}
		if i < len(r) {
			d.verb = r[i]
			i++
		} else {
			d.verb = '!'
		}
		d.text = string(r[from:i])
		out = append(out, d)
		start = i
	}
	if start < len(r) {
		out = append(out, directive{text: string(r[start:])})
	}
	return out
}

const (
	aBool = 1 << iota
	aInt
	aRune
	aString
	aFloat
	aComplex
	aPointer
	aAny
)

var verbKinds = map[rune]int{
	'b': aInt | aFloat | aComplex | aPointer, 'c': aRune | aInt, 'd': aInt | aPointer, 'e': aFloat | aComplex, 'E': aFloat | aComplex,
	'f': aFloat | aComplex, 'F': aFloat | aComplex, 'g': aFloat | aComplex, 'G': aFloat | aComplex, 'o': aInt | aPointer, 'O': aInt | aPointer,
	'p': aPointer, 'q': aRune | aInt | aString, 's': aString, 't': aBool, 'T': aAny, 'U': aRune | aInt, 'v': aAny, 'w': aAny,
	'x': aRune | aInt | aString | aPointer | aFloat | aComplex, 'X': aRune | aInt | aString | aPointer | aFloat | aComplex,
}

func hasMethod(t types.Type, name string, params, results int) bool {
	for _, x := range []types.Type{t} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if m := ms.At(i).Obj(); m.Name() == name {
				sg := m.Type().(*types.Signature)
				if sg.Params().Len() == params && sg.Results().Len() == results {
					return true
				}
			}
		}
	}
	return false
}

// fits: a value of the type has a text under the verb.
func fits(t types.Type, verb rune, depth int, seen map[types.Type]bool) bool {
	k := verbKinds[verb]
	if verb == 'T' || seen[t] {
		return true
	}
	seen[t] = true
	if hasMethod(t, "Format", 2, 0) {
		return true
	}
	if k&aString != 0 && (hasMethod(t, "Error", 0, 1) || hasMethod(t, "String", 0, 1)) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Signature:
		return verb == 'p' || depth > 0 && k&aAny != 0
	case *types.Chan:
		return k&(aPointer|aAny) != 0
	case *types.Map:
		return verb == 'p' || fits(u.Key(), verb, depth+1, seen) && fits(u.Elem(), verb, depth+1, seen)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && k&aString != 0 {
			return true
		}
		return verb == 'p' || fits(u.Elem(), verb, depth+1, seen)
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && k&aString != 0 {
			return true
		}
		return fits(u.Elem(), verb, depth+1, seen)
	case *types.Pointer:
		if k&(aPointer|aAny) != 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Map, *types.Slice, *types.Array:
			return depth == 0 && fits(u.Elem(), verb, depth+1, seen)
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !fits(u.Field(i).Type(), verb, depth+1, seen) {
				return false
			}
		}
		return true
	case *types.Basic:
		if k&aAny != 0 {
			return true
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return k&aBool != 0
		case u.Kind() == types.UntypedRune:
			return k&(aRune|aInt) != 0
		case u.Info()&types.IsInteger != 0:
			return k&aInt != 0
		case u.Info()&types.IsFloat != 0:
			return k&aFloat != 0
		case u.Info()&types.IsComplex != 0:
			return k&aComplex != 0
		case u.Info()&types.IsString != 0:
			return k&aString != 0
		case u.Kind() == types.UnsafePointer:
			return k&aPointer != 0
		case u.Kind() == types.UntypedNil:
			return false
		}
	}
	return true
}

// kind: the call formats a text; the index is that of the format.
func (s *fmtScan) kind(c ssa.CallInstruction) (fkind, bool) {
	if !variadicAny(c.Common().Signature()) {
		return fkind{}, false
	}
	for _, g := range s.targets(c) {
		if k, ok := stdPrintf[g.String()]; ok {
			return k, true
		}
		if k, ok := s.printf[g]; ok {
			return k, true
		}
	}
	return fkind{}, false
}

func (s *fmtScan) isPrintln(c ssa.CallInstruction) bool {
	if !variadicAny(c.Common().Signature()) {
		return false
	}
	for _, g := range s.targets(c) {
		if stdPrintln[g.String()] || s.println[g] {
			return true
		}
	}
	return false
}

func (s *fmtScan) calleeName(c ssa.CallInstruction) string {
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	for _, g := range s.targets(c) {
		return s.p.short(g)
	}
	return "?"
}

func (r *Run) c26() {
	r.rule("constant-format: the format of every formatting call consists, on every combination of branches, stores, helpers and callers, of constants of the program and of numbers; the format given to a function which passes it on together with its variadic arguments is checked at the calls of that function")
	r.rule("arguments: the directives of the format, parsed, ask for exactly the arguments supplied; every directive is one of package fmt")
	r.rule("types: the static type of each argument fits its directive (as fmt defines it: numbers, texts, errors and Stringers, pointers, and their elements and fields); arguments of interface types fit")
	r.rule("print: a text printed as such (Print, Println and what passes on to them) holds no directive, as it would not be interpreted")
	r.assumes("values which are interfaces already when they are formatted (any received value) fit their directive; lists of arguments built in loops are not counted")
	s := newFmtScan(r.p)
	r.count("functions which pass a format on", len(s.printf))
	total := 0
	for _, f := range s.funcs {
		n := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k, isF := s.kind(c)
				if !isF && !s.isPrintln(c) {
					continue
				}
				total++
				r.funcs[f] = true
				cn := s.calleeName(c)
				n[cn]++
				con := fmt.Sprintf("%s: call %d of %s", r.p.short(f), n[cn], cn)
				pos := r.p.pos(c)
				if isF {
					s.each(func() { s.checkFormat(r, f, c, k, con, pos) })
				} else {
					s.each(func() { s.checkPrint(r, f, c, con, pos) })
				}
				if s.over && isF {
					r.count("formats with too many combinations of branches", 1)
					r.oblige("constant-format", con, pos, !s.mayHold(s.operand(c, k.idx), map[ssa.Value]bool{}), "the format may hold data: a '%' in it would be taken as a directive")
				}
				s.over = false
			}
		}
	}
	r.textOfContents()
	r.count("formatting calls", total)
	if total == 0 {
		r.fail("anchor", "formatting calls", "", "no formatting call was found")
	}
}

func (s *fmtScan) checkPrint(r *Run, f *ssa.Function, c ssa.CallInstruction, con, pos string) {
	fr := &fframe{fn: f}
	a := s.args(fr, s.varargs(c), 0)
	for _, x := range a.list {
		if x.v == nil || !isText(x.v.Type()) {
			continue
		}
		// the text of a variable may hold anything
		if _, isC := x.v.(*ssa.Const); !isC {
			continue
		}
		t, ok := flat(s.text(x.fr, x.v, 0))
		if !ok {
			continue
		}
		for _, d := range directives(t) {
			if _, is := verbKinds[d.verb]; is && !strings.Contains(d.text, " ") {
				r.fail("print", con, pos, fmt.Sprintf("%q holds the directive %s, which is printed and not interpreted", t, d.text))
				return
			}
		}
	}
	r.oblige("print", con, pos, true, "")
}

func (s *fmtScan) checkFormat(r *Run, f *ssa.Function, c ssa.CallInstruction, k fkind, con, pos string) {
	fr := &fframe{fn: f}
	a := s.args(fr, s.varargs(c), 0)
	s.wrap = a.rest
	l := s.text(fr, s.operand(c, k.idx), 0)
	t, opaque := "", false
	after := "" // behind the format passed on
	passed := false
	for _, q := range l {
		switch q.kind {
		case fData:
			r.fail("constant-format", con, pos, "the format holds data: a '%' in it would be taken as a directive")
			return
		case fOpaque:
			opaque = true
		case fParam:
			passed = true
		case fSafe:
			if passed {
				after += "1"
			} else {
				t += "1"
			}
		case fLit:
			if passed {
				after += q.s
			} else {
				t += q.s
			}
		}
	}
	r.oblige("constant-format", con, pos, true, "")
	if a.rest != nil && !passed && !opaque {
		// a fixed format cannot know how many arguments there are
		r.fail("arguments", con, pos, fmt.Sprintf("the format %q is given arguments of unknown number", t))
		return
	}
	if opaque || !a.ok {
		r.count("calls with a format or arguments built in loops", 1)
		return
	}
	need, indexed := 0, false
	for _, d := range directives(t) {
		if d.verb == 0 || d.verb == '%' {
			continue
		}
		_, is := verbKinds[d.verb]
		if !r.oblige("arguments", con, pos, is && (d.verb != 'w' || k.errf), fmt.Sprintf("the format %q holds %s, which is no directive", t, d.text)) {
			return
		}
		if d.indexed {
			indexed = true
			continue
		}
		for i := 0; i < d.stars; i++ {
			if need < len(a.list) {
				x := a.list[need]
				b, isB := types.Type(nil), false
				if x.t != nil {
					b = x.t.Underlying()
					if bb, ok := b.(*types.Basic); ok && bb.Info()&types.IsInteger != 0 {
						isB = true
					}
					isB = isB || types.IsInterface(b)
				}
				r.oblige("types", con, pos, isB, fmt.Sprintf("the width of %s in %q is no number", d.text, t))
			}
			need++
		}
		if need < len(a.list) && !indexed {
			x := a.list[need]
			if x.t == nil {
				r.oblige("types", con, pos, verbKinds[d.verb]&aAny != 0, fmt.Sprintf("%s in %q is given nil", d.text, t))
			} else {
				r.oblige("types", con, pos, fits(x.t, d.verb, 0, map[types.Type]bool{}), fmt.Sprintf("%s in %q does not fit an argument of type %s", d.text, t, types.TypeString(x.t, func(p *types.Package) string { return p.Name() })))
			}
		}
		need++
	}
	if indexed {
		r.count("formats with explicit indexes", 1)
		return
	}
	r.oblige("arguments", con, pos, need == len(a.list), fmt.Sprintf("the format %q asks for %d arguments, %d are supplied", t, need, len(a.list)))
	for _, d := range directives(after) {
		if d.verb != 0 && d.verb != '%' {
			r.count("directives behind a format passed on", 1)
		}
	}
}
