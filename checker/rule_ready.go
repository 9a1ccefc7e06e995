package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = check{run: (*Run).c27, expl: "Abstract interpretation of every constructor on unknown arguments, and of every exported method of what it returns from the state the constructor leaves (and from those in which SetLogger or another method left a field nil): no path uses a part of the object which is nil, as a pointer, map, function, interface or channel. Goroutines which a method starts are followed too."}
}

// constructors are the exported functions which return a new object with methods.
func (r *Run) constructors() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || !isExported(f) || !strings.HasPrefix(f.Name(), "New") || f.Signature.Results().Len() == 0 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		if isPtr(t) || types.IsInterface(t) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// makerOf is the constructor with the fewest arguments which makes objects of a type and cannot fail.
func (r *Run) makerOf(t types.Type) *ssa.Function {
	if !isPtr(t) {
		return nil
	}
	var best *ssa.Function
	for _, c := range r.constructors() {
		res := c.Signature.Results()
		if res.Len() == 1 && types.Identical(res.At(0).Type(), t) && (best == nil || len(c.Params) < len(best.Params)) {
			best = c
		}
	}
	return best
}

// methodsOn are the exported methods of a dynamic type.
func (r *Run) methodsOn(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := r.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if !token.IsExported(ms.At(i).Obj().Name()) {
			continue
		}
		if f := r.p.prog.MethodValue(ms.At(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// ready runs one call; the constructs which use nil are reported.
type ready struct {
	r    *Run
	e    *Engine
	name string
	n    int
	gos  []loopCall

	mades []Exit
}

func (r *Run) newReady(name string) *ready {
	y := &ready{r: r, e: r.engine(), name: name}
	e := y.e
	e.budget = 400000
	if !r.thorough && strings.HasSuffix(name, " Decode") && !strings.Contains(name, "NewTree") && !strings.Contains(name, "NewRoot") {
		e.budget = 8000 // C01 follows decoders to their end
	}
	m := &anyReader{e: e, modular: true}
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if strings.HasPrefix(c.Name, "(*sync.Mutex).") || strings.HasPrefix(c.Name, "(*sync.RWMutex).") {
			return e.results(st, c.Sig, c.Name, false), true
		}
		return m.call(st, c)
	}
	e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
		if kind != "nil" || !e.definite {
			return
		}
		y.n++
		r.fail("ready", y.name+": "+what, r.p.pos(in), fmt.Sprintf("%s is nil here on a path of %s; calls %s", what, y.name, e.stackText()))
	}
	e.onChan = func(st *State, in ssa.Instruction, v Val, what string) {
		if st.nilness(st.nv(v)) == 1 {
			y.n++
			r.fail("ready", y.name+": "+what+" a channel", r.p.pos(in), fmt.Sprintf("%s a channel which is nil blocks for ever on a path of %s", what, y.name))
		}
	}
	// what the user hands over does its own work, and leaves the object alone
	e.onInvoke = func(st *State, c *CallCtx) ([]Exit, bool) {
		return e.results(st, c.Sig, c.Name, true), true
	}
	e.onGo = func(st *State, in *ssa.Go, fn Val, args []Val) {
		if len(y.gos) < 8 {
			y.gos = append(y.gos, loopCall{st.clone(), in, fn, args})
		}
	}
	return y
}

// usable arguments: nothing is nil, except where nothing is a value of its own (slices).
func (y *ready) args(st *State, f *ssa.Function, skip int, nilIfaces bool) []Val {
	var out []Val
	for _, pa := range f.Params[skip:] {
		if c := y.r.makerOf(pa.Type()); c != nil && c != f && !takesPtrTo(c, "asn1.ASNReader") {
			ex := y.e.call(st.clone(), c, y.args(st, c, 0, false))
			if len(ex) > 0 {
				*st = *ex[0].st
				y.e.roots = append(y.e.roots, ex[0].res)
				out = append(out, ex[0].res)
				continue
			}
		}
		v := y.e.fresh(pa.Type(), pa.Name())
		if nilIfaces && types.IsInterface(pa.Type()) {
			out = append(out, VNil{})
			continue
		}
		if nillable(pa.Type()) {
			if _, isS := pa.Type().Underlying().(*types.Slice); !isS {
				st.setNonNil(v)
			}
		}
		out = append(out, v)
	}
	return out
}

func (y *ready) try(f func()) (ok bool) {
	if os.Getenv("EMBER_TIME") != "" {
		t := time.Now()
		defer func() { fmt.Println("end", y.name, time.Since(t), y.e.steps) }()
	}
	defer func() {
		y.r.steps += y.e.steps
		if x := recover(); x != nil {
			if _, isB := x.(budgetErr); !isB {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// object is what a constructor returned, by the type it has.
func (y *ready) object(st *State, v Val) (VPtr, types.Type, bool) {
	v = st.nv(v)
	if t, ok := v.(VTuple); ok && len(t) > 0 {
		v = st.nv(t[0])
	}
	if f, ok := v.(VIface); ok {
		v = st.nv(f.V)
	}
	p, ok := v.(VPtr)
	if !ok || st.objs[p.O] == nil {
		return VPtr{}, nil, false
	}
	return p, types.NewPointer(st.objs[p.O].T), true
}

func (y *ready) made(ctor *ssa.Function) []Exit {
	st := y.e.start()
	var out []Exit
	for _, x := range y.e.call(st, ctor, y.args(st, ctor, 0, false)) {
		if err, ok := errOf(y.e, ctor.Signature, x.res); ok && x.st.nilness(err) == 2 {
			continue
		}
		y.e.roots = append(y.e.roots, x.res)
		out = append(out, x)
	}
	return out
}

// after runs a method, and the goroutines it starts.
func (y *ready) after(st *State, f *ssa.Function, o VPtr, nilIfaces bool) []Exit {
	y.gos = nil
	args := append([]Val{o}, y.args(st, f, 1, nilIfaces)...)
	if !isPtr(f.Params[0].Type()) {
		args[0] = st.load(o, f.Params[0].Type())
	}
	ex := y.e.call(st, f, args)
	for i := 0; i < len(y.gos); i++ {
		g := y.gos[i]
		if fv, ok := g.st.nv(g.fn).(VFunc); ok {
			y.e.callFunc(g.st, g.in, fv, g.args)
		}
	}
	return ex
}

// nilled are the fields of an object which were set before and are nil now.
func nilledFields(a, b *State, o VPtr) []string {
	var out []string
	s, ok := b.objs[o.O].T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if !nillable(t) {
			continue
		}
		if _, isS := t.Underlying().(*types.Slice); isS {
			continue
		}
		c := VPtr{o.O, "." + s.Field(i).Name()}
		if a.nilness(a.load(c, t)) == 2 && b.nilness(b.load(c, t)) == 1 {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func (r *Run) c27() {
	r.rule("ready: on no path of a constructor, of an exported method called on the object it returned, or of a goroutine which the method starts, a pointer, map, function or interface which is nil on that path is used, and no channel which is nil; arguments are unknown and not nil")
	r.rule("kept: where a method (SetLogger: given nil) leaves a field nil which the constructor had set, every exported method is run again from the state it leaves, with the same demand")
	r.rule("made: a constructor which returns no error returns an object")
	r.assumes("values which only may be nil (what callers hand over in arguments, results of interfaces) are those other properties speak about; parts which no path of the constructor sets are nil")
	inits := map[string]map[string]bool{} // fields every constructor of a type sets
	objTypes := map[string]types.Type{}
	ctors := r.constructors()
	for _, n := range []string{"socket.NewS101Client", "socket.NewS101Decoder", "embertree.NewTree", "embertree.NewRoot", "embertree.NewElement", "embertree.NewQualifiedElement", "asn1.NewASNReader", "asn1.NewASNWriter", "logger.NewConsoleLogger"} {
		r.need(n)
	}
	for _, c := range ctors {
		cn := r.p.short(c)
		y := r.newReady(cn)
		var methods []*ssa.Function
		if !r.guard(cn, y.e, func() {
			y.mades = y.made(c)
			for _, x := range y.mades {
				_, t, ok := y.object(x.st, x.res)
				if ok {
					methods = r.methodsOn(t)
				}
				if c.Signature.Results().Len() > 1 {
					r.oblige("made", cn, r.at(c), ok, "a path returns nothing and no error")
				}
			}
		}) {
			continue
		}
		r.count("constructors", 1)
		for _, x := range y.mades {
			if o, t, ok := y.object(x.st, x.res); ok {
				n := t.(*types.Pointer).Elem().String()
				in := initialised(x.st, o)
				if old, seen := inits[n]; seen {
					for k := range old {
						if !in[k] {
							delete(old, k)
						}
					}
				} else {
					inits[n] = in
				}
				objTypes[n] = t
			}
		}
		for _, f := range methods {
			r.readyMethod(c, f, methods)
		}
	}
	var names []string
	for n := range inits {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.keeps(objTypes[n], inits[n])
	}
	// objects which are decoded
	for _, f := range r.decoders(false) {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() == 0 || !isPtr(f.Signature.Results().At(0).Type()) {
			continue
		}
		y := r.newReady(r.p.short(f))
		y.e.budget = 40000
		y.try(func() {
			st := y.e.start()
			y.e.call(st, f, y.args(st, f, 0, false))
		})
		if y.n == 0 {
			r.oblige("ready", y.name, r.at(f), true, "")
		}
	}
}

// apart keeps states apart in which different fields of an object are nil.
func (y *ready) apart(o VPtr) {
	y.e.stateKey = func(st *State) string {
		ob := st.objs[o.O]
		if ob == nil {
			return ""
		}
		s, ok := ob.T.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		k := ""
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			if !nillable(t) {
				continue
			}
			if _, isS := t.Underlying().(*types.Slice); isS {
				continue
			}
			if st.nilness(st.load(VPtr{o.O, o.P + "." + s.Field(i).Name()}, t)) == 1 {
				k += s.Field(i).Name() + ";"
			}
		}
		return k
	}
}

// initialised are the fields of an object which are not nil.
func initialised(st *State, o VPtr) map[string]bool {
	out := map[string]bool{}
	s, ok := st.objs[o.O].T.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if _, isS := t.Underlying().(*types.Slice); isS || !nillable(t) {
			continue
		}
		if st.nilness(st.load(VPtr{o.O, "." + s.Field(i).Name()}, t)) == 2 {
			out[s.Field(i).Name()] = true
		}
	}
	return out
}

// clears: a function, or one it calls, stores nil in one of some fields of a type.
func (r *Run) clears(f *ssa.Function, t types.Type, fields map[string]bool, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), t) {
					break
				}
				n := t.(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				if fields[n] && mayBeNilConst(x.Val, map[ssa.Value]bool{}) {
					return true
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && r.clears(g, t, fields, seen) {
					return true
				}
			case *ssa.MakeClosure:
				if r.clears(x.Fn.(*ssa.Function), t, fields, seen) {
					return true
				}
			}
		}
	}
	return false
}

// mayBeNilConst: nil is among the sources of a value in its function, or it comes from elsewhere as a pointer.
func mayBeNilConst(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mayBeNilConst(e, seen) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return mayBeNilConst(x.X, seen)
	case *ssa.ChangeType:
		return mayBeNilConst(x.X, seen)
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.Extract, *ssa.Call:
		return true
	}
	return false
}

// keeps runs the methods which may store nil in an initialised field from any state of the object.
func (r *Run) keeps(t types.Type, fields map[string]bool) {
	tn := types.TypeString(t.(*types.Pointer).Elem(), func(p *types.Package) string { return p.Name() })
	methods := r.methodsOn(t)
	for _, f := range methods {
		r.count("methods searched for stores of nil", 1)
		if !isPtr(f.Params[0].Type()) || !r.clears(f, t, fields, map[*ssa.Function]bool{}) {
			continue
		}
		y := r.newReady(tn + "." + f.Name())
		quiet := y.e.onPanic
		y.e.onPanic = nil
		y.e.budget = 30000
		var exits []Exit
		var o VPtr
		y.try(func() {
			st := y.e.start()
			v := y.e.fresh(t, "object")
			st.setNonNil(v)
			y.e.roots = append(y.e.roots, v)
			p, ok := st.ptr(v)
			if !ok {
				return
			}
			o = p
			s := t.(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if fields[s.Field(i).Name()] {
					st.setNonNil(st.load(VPtr{o.O, o.P + "." + s.Field(i).Name()}, s.Field(i).Type()))
				}
			}
			before := st.clone()
			y.apart(o)
			defer func() { y.e.stateKey = nil }()
			for _, z := range y.after(st, f, o, false) {
				if l := nilledFields(before, z.st, o); len(l) > 0 && len(exits) < 4 {
					exits = append(exits, Exit{z.st, VStr{strings.Join(l, ", ")}})
				}
			}
		})
		y.e.onPanic = quiet
		for _, x := range exits {
			for _, g := range methods {
				y.name = tn + "." + f.Name() + " (which leaves " + x.res.(VStr).S + " nil), then " + g.Name()
				n := y.n
				y.e.steps = 0
				if y.try(func() { y.after(x.st.clone(), g, o, false) }) && y.n == n {
					r.oblige("kept", y.name, r.at(g), true, "")
				}
			}
		}
	}
}

func (r *Run) readyMethod(c, f *ssa.Function, all []*ssa.Function) {
	cn := r.p.short(c)
	name := cn + ", then " + f.Name()
	y := r.newReady(name)
	type left struct {
		st     *State
		o      VPtr
		fields string
	}
	var lefts []left
	logger := strings.HasSuffix(f.Name(), "SetLogger")
	done := y.try(func() {
		for _, x := range y.made(c) {
			o, _, ok := y.object(x.st, x.res)
			if !ok {
				continue
			}
			y.e.roots = append(y.e.roots, o)
			y.apart(o)
			zs := y.after(x.st.clone(), f, o, logger)
			y.e.stateKey = nil
			for _, z := range zs {
				if z.st.objs[o.O] == nil {
					continue
				}
				if l := nilledFields(x.st, z.st, o); len(l) > 0 && len(lefts) < 4 {
					lefts = append(lefts, left{z.st, o, strings.Join(l, ", ")})
				}
			}
		}
	})
	if !done {
		r.count("methods too large to be followed", 1)
		return
	}
	r.count("methods", 1)
	if y.n == 0 {
		r.oblige("ready", name, r.at(f), true, "")
	}
	for _, l := range lefts {
		for _, g := range all {
			y.name = name + " (which leaves " + l.fields + " nil), then " + g.Name()
			n := y.n
			y.e.steps = 0
			if y.try(func() { y.after(l.st.clone(), g, l.o, false) }) && y.n == n {
				r.oblige("kept", y.name, r.at(g), true, "")
			}
		}
	}
}
