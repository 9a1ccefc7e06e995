package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = check{run: (*Run).c09, expl: "Encoders and decoders are analysed against each other over an abstract medium: the abstract execution of the encoder of an object with symbolic properties yields the list of BER tokens it writes, which the decoder is then executed on abstractly; the object it makes must show the same symbols in every property and encode to the same tokens."}
}

// A kind is something which is encoded and decoded.
type kind struct {
	name   string
	enc    func(m *tm, st *State, x Val, w VPtr) []Exit
	dec    func(m *tm, st *State, rd VPtr) []Exit // the result is what was decoded
	empty  func(m *tm, st *State) (*State, Val)
	builds []build
}

// A build makes an object of a kind.
type build struct {
	name string
	f    func(m *tm, st *State) (*State, Val)
}

func encWith(name string) func(m *tm, st *State, x Val, w VPtr) []Exit {
	return func(m *tm, st *State, x Val, w VPtr) []Exit { return m.do(st, name, x, w) }
}

// into: a Decode method on a new object.
func into(method string, mk func(m *tm, st *State) (*State, Val)) func(m *tm, st *State, rd VPtr) []Exit {
	return func(m *tm, st *State, rd VPtr) []Exit {
		st, y := mk(m, st)
		f := m.r.need(method)
		if f == nil {
			panic(budgetErr{method + " does not exist"})
		}
		var out []Exit
		for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{y, rd}, Sig: f.Signature}) {
			out = append(out, Exit{x.st, VTuple{y, x.res}})
		}
		return out
	}
}

// from: a function which decodes and returns what it decoded.
func from(name string, args ...Val) func(m *tm, st *State, rd VPtr) []Exit {
	return func(m *tm, st *State, rd VPtr) []Exit {
		f := m.r.need(name)
		if f == nil {
			panic(budgetErr{name + " does not exist"})
		}
		return m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: append([]Val{rd}, args...), Sig: f.Signature})
	}
}

func zeroOf(tn string) func(m *tm, st *State) (*State, Val) {
	return func(m *tm, st *State) (*State, Val) {
		t := m.r.p.typ(tn)
		if t == nil {
			panic(budgetErr{tn + " does not exist"})
		}
		p := VPtr{st.alloc(t, "new "+tn), ""}
		m.e.roots = append(m.e.roots, p)
		return st, p
	}
}

// made: the object a constructor makes.
func made(ctor string, args ...Val) func(m *tm, st *State) (*State, Val) {
	return func(m *tm, st *State) (*State, Val) {
		s, v := m.one(st, ctor, args...)
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		return s, v
	}
}

// argOf is a symbolic argument of a type.
func (m *tm) argOf(st *State, t types.Type, name string) (*State, Val) {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if p, ok := s.Elem().Underlying().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				var l []Val
				for i := 0; i < 2; i++ {
					var v Val
					st, v = m.objOf(st, n, fmt.Sprint(name, i))
					l = append(l, v)
				}
				return st, m.list(st, s.Elem(), l...)
			}
		}
		if n, ok := s.Elem().(*types.Named); ok && n.Obj().Name() == "Signal" {
			return st, nil
		}
	}
	return st, m.sym(st, t, name)
}

// objOf makes an object of a named type with all properties set.
func (m *tm) objOf(st *State, n *types.Named, name string) (*State, Val) {
	i32 := types.Typ[types.Int32]
	switch n.Obj().Name() {
	case "TupleDescription":
		f := m.r.need("embertree.NewArgument")
		if f == nil {
			break
		}
		return m.one(st, "embertree.NewArgument", m.sym(st, f.Params[0].Type(), name+".type"), m.sym(st, types.Typ[types.String], name+".name"))
	case "Label":
		return m.one(st, "embertree.NewLabel", m.sym(st, m.oidT(), name+".path"), m.sym(st, types.Typ[types.String], name+".description"))
	case "Connection":
		return m.connection(st, name, true)
	case "ContentParameter":
		return m.value(st, "SetString", name)
	case "Target":
		return m.one(st, "embertree.NewTarget", m.sym(st, i32, name))
	case "Source":
		return m.one(st, "embertree.NewSource", m.sym(st, i32, name))
	}
	panic(budgetErr{"no way to make a " + n.String() + " is known"})
}

func (m *tm) oidT() types.Type {
	t := m.r.p.typ("asn1.RelativeOID")
	if t == nil {
		panic(budgetErr{"asn1.RelativeOID does not exist"})
	}
	return t
}

func (m *tm) connection(st *State, name string, sources bool) (*State, Val) {
	st, c := zeroOf("embertree.Connection")(m, st)
	p := c.(VPtr)
	i32 := types.Typ[types.Int32]
	st.store(VPtr{p.O, ".Target"}, m.sym(st, i32, name+".Target"), i32)
	if sources {
		t := types.NewSlice(i32)
		st.store(VPtr{p.O, ".Sources"}, m.sym(st, t, name+".Sources"), t)
	}
	for _, s := range []string{"SetOperation", "SetDisposition"} {
		st, _ = m.one(st, "embertree.Connection."+s, p, m.sym(st, intT, name+"."+s[3:]))
	}
	return st, p
}

// value makes a typed value.
func (m *tm) value(st *State, set, name string) (*State, Val) {
	st, v := m.one(st, "embertree.NewContentParameter")
	f := m.r.need("embertree.ContentParameter." + set)
	if f == nil {
		panic(budgetErr{set + " does not exist"})
	}
	st, _ = m.one(st, "embertree.ContentParameter."+set, v, m.sym(st, f.Params[1].Type(), name))
	return st, v
}

var valueSetters = []string{"SetString", "SetBool", "SetInt", "SetBuffer", "SetReal", "SetRelativeOID"}

// setters are the exported methods of a type with one argument which store a property.
func (r *Run) setters(tn string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.methodsOf(tn) {
		if isExported(f) && strings.HasPrefix(f.Name(), "Set") && f.Signature.Params().Len() == 1 {
			out = append(out, f)
		}
	}
	return out
}

// objectQueries are the methods which return a property to be set.
func (r *Run) objectQueries(tn string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.methodsOf(tn) {
		res := f.Signature.Results()
		if isExported(f) && strings.HasPrefix(f.Name(), "Get") && f.Signature.Params().Len() == 0 && res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "embertree.ContentParameter") && isPtr(res.At(0).Type()) {
			out = append(out, f)
		}
	}
	return out
}

// set calls a setter with a new symbol; sets is what was stored.
func (m *tm) set(st *State, f *ssa.Function, x Val, sets map[string]Val) *State {
	st, v := m.argOf(st, f.Params[1].Type(), f.Name()[3:])
	if sets != nil {
		sets[f.Name()] = v
	}
	return m.choose(m.r.p.short(f), m.doF(st, f, x, v)).st
}

// setObject sets the typed value a query returns.
func (m *tm) setObject(st *State, f *ssa.Function, x Val, set string, sets map[string]Val) *State {
	ob := m.choose(m.r.p.short(f), m.doF(st, f, x))
	st = ob.st
	sf := m.r.need("embertree.ContentParameter." + set)
	if sf == nil {
		panic(budgetErr{set + " does not exist"})
	}
	v := m.sym(st, sf.Params[1].Type(), f.Name()[3:])
	st, _ = m.one(st, "embertree.ContentParameter."+set, ob.res, v)
	if sets != nil {
		sets[f.Name()] = v
	}
	return st
}

// rest fills what no exported method sets: references, typed values, and lists of objects of the package.
func (m *tm) rest(st *State, x Val) *State {
	p := x.(VPtr)
	s, ok := st.objs[p.O].T.Underlying().(*types.Struct)
	if !ok {
		return st
	}
	cp := m.r.p.typ("embertree.ContentParameter")
	fill := func(c VPtr) {
		for _, q := range m.do(st.clone(), "embertree.ContentParameter.IsSet", c) {
			if b, ok := constOf(q.st.nv(q.res)); ok && b == 0 {
				st, _ = m.one(q.st, "embertree.ContentParameter.SetString", c, m.sym(q.st, types.Typ[types.String], c.P))
				return
			}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		c := VPtr{p.O, "." + f.Name()}
		m.norec = true // not every one of these is encoded
		switch t := f.Type().Underlying().(type) {
		case *types.Array:
			if types.Identical(t.Elem(), cp) && t.Len() <= 64 {
				for k := int64(0); k < t.Len(); k++ {
					fill(VPtr{c.O, fmt.Sprintf("%s[%d]", c.P, k)})
				}
			}
		case *types.Struct:
			if types.Identical(f.Type(), cp) {
				fill(c)
			}
		case *types.Slice:
			if st.nilness(st.load(c, f.Type())) != 1 {
				break
			}
			if types.Identical(f.Type(), m.oidT()) {
				st.store(c, m.sym(st, f.Type(), f.Name()), f.Type())
			} else if isPtr(t.Elem()) {
				m.norec = false
				var v Val
				st, v = m.argOf(st, f.Type(), f.Name())
				if v != nil {
					st.store(c, v, f.Type())
				}
			}
		}
		m.norec = false
	}
	return st
}

var contentTypes = []struct{ typ, ctor string }{
	{"embertree.ParameterContents", "embertree.NewParameterContents"},
	{"embertree.NodeContents", "embertree.NewNodeContents"},
	{"embertree.FunctionContents", "embertree.NewFunctionContents"},
	{"embertree.MatrixContent", "embertree.NewDefaultMatrixContents"},
	{"embertree.CommandContents", "embertree.NewCommandContents"},
}

// contents makes contents: which tells the properties to be set.
func (m *tm) contents(st *State, typ, ctor, objSet string, which func(name string) bool, rest bool, sets map[string]Val) (*State, Val) {
	st, x := made(ctor)(m, st)
	for _, f := range m.r.setters(typ) {
		if which(f.Name()) {
			st = m.set(st, f, x, sets)
		}
	}
	for _, f := range m.r.objectQueries(typ) {
		if which(f.Name()) {
			st = m.setObject(st, f, x, objSet, sets)
		}
	}
	if rest {
		st = m.rest(st, x)
	}
	return st, x
}

func all(string) bool  { return true }
func none(string) bool { return false }

// leafKinds are the kinds below elements.
func (r *Run) leafKinds() []kind {
	var ks []kind
	for _, c := range contentTypes {
		c := c
		k := kind{name: c.typ, enc: encWith(c.typ + ".Encode"), dec: into(c.typ+".Decode", made(c.ctor))}
		for _, set := range valueSetters {
			set := set
			if len(r.objectQueries(c.typ)) == 0 && set != valueSetters[0] {
				continue
			}
			n := "with all properties"
			if len(r.objectQueries(c.typ)) > 0 {
				n += " (values by " + set + ")"
			}
			k.builds = append(k.builds, build{n, func(m *tm, st *State) (*State, Val) { return m.contents(st, c.typ, c.ctor, set, all, true, nil) }})
		}
		k.builds = append(k.builds, build{"with no property", func(m *tm, st *State) (*State, Val) { return m.contents(st, c.typ, c.ctor, "SetInt", none, false, nil) }})
		for _, f := range append(r.setters(c.typ), r.objectQueries(c.typ)...) {
			f := f
			k.builds = append(k.builds, build{"with " + f.Name()[3:], func(m *tm, st *State) (*State, Val) {
				return m.contents(st, c.typ, c.ctor, "SetInt", func(n string) bool { return n == f.Name() }, false, nil)
			}})
		}
		ks = append(ks, k)
	}
	// values
	vk := kind{name: "embertree.ContentParameter", enc: func(m *tm, st *State, x Val, w VPtr) []Exit {
		return m.do(st, "embertree.ContentParameter.Encode", x, intV(5), w)
	}, dec: from("embertree.DecodeValue", intV(5))}
	for _, set := range valueSetters {
		set := set
		vk.builds = append(vk.builds, build{"by " + set, func(m *tm, st *State) (*State, Val) { return m.value(st, set, "value") }})
	}
	ks = append(ks, vk)
	objs := func(t string) func(m *tm, st *State) (*State, Val) {
		return func(m *tm, st *State) (*State, Val) {
			n, ok := m.r.p.typ("embertree." + t).(*types.Named)
			if !ok {
				panic(budgetErr{t + " does not exist"})
			}
			return m.objOf(st, n, strings.ToLower(t))
		}
	}
	ks = append(ks, kind{name: "embertree.Label", enc: encWith("embertree.Label.Encode"), dec: from("embertree.DecodeLabel"), builds: []build{{"", objs("Label")}}})
	ks = append(ks, kind{name: "embertree.TupleDescription", enc: encWith("embertree.TupleDescription.Encode"), dec: into("embertree.TupleDescription.Decode", zeroOf("embertree.TupleDescription")), builds: []build{{"", objs("TupleDescription")}}})
	ks = append(ks, kind{name: "embertree.Target", enc: encWith("embertree.Target.Encode"), dec: from("embertree.DecodeSignal"), builds: []build{{"", objs("Target")}}})
	ks = append(ks, kind{name: "embertree.Source", enc: encWith("embertree.Source.Encode"), dec: from("embertree.DecodeSignal"), builds: []build{{"", objs("Source")}}})
	ks = append(ks, kind{name: "embertree.Connection", enc: encWith("embertree.Connection.Encode"), dec: into("embertree.Connection.Decode", zeroOf("embertree.Connection")), builds: []build{
		{"with sources", func(m *tm, st *State) (*State, Val) { return m.connection(st, "connection", true) }},
		{"without sources", func(m *tm, st *State) (*State, Val) { return m.connection(st, "connection", false) }},
	}})
	inv := func(n int) func(m *tm, st *State) (*State, Val) {
		return func(m *tm, st *State) (*State, Val) {
			f := m.r.need("embertree.NewInvocation")
			if f == nil {
				panic(budgetErr{"NewInvocation does not exist"})
			}
			var l []Val
			for i := 0; i < n; i++ {
				var v Val
				st, v = m.value(st, valueSetters[i%len(valueSetters)], fmt.Sprint("argument", i))
				l = append(l, v)
			}
			return m.one(st, "embertree.NewInvocation", m.sym(st, f.Params[0].Type(), "id"), m.list(st, f.Params[1].Type().Underlying().(*types.Slice).Elem(), l...))
		}
	}
	ks = append(ks, kind{name: "embertree.Invocation", enc: encWith("embertree.Invocation.Encode"), dec: into("embertree.Invocation.Decode", zeroOf("embertree.Invocation")), builds: []build{
		{"without arguments", inv(0)}, {"with an argument", inv(1)}, {"with six arguments", inv(6)},
	}})
	return ks
}

// outcome splits the result of a decoder: what was decoded, and its error.
func (m *tm) outcome(x Exit) (Val, Val) {
	t, ok := x.res.(VTuple)
	if !ok || len(t) != 2 {
		return nil, nil
	}
	y := x.st.nv(t[0])
	if i, ok := y.(VIface); ok {
		y = x.st.nv(i.V)
	}
	return y, t[1]
}

// roundTrip encodes an object, decodes it and compares.
func (r *Run) roundTrip(k kind, b build) {
	pos := r.p.fpos(k.name + ".Encode")
	what := strings.TrimSpace(k.name + " " + b.name)
	r.paths(what, func(m *tm) {
		st, x := b.f(m, m.e.start())
		m.e.roots = append(m.e.roots, x)
		w := m.writer(st)
		ex := k.enc(m, st, x, w)
		if len(ex) == 0 {
			r.fail("encodes", what, pos, "it is never encoded without an error")
		}
		for _, q := range ex {
			toks := m.toks(q.st, w)
			for _, v := range m.syms {
				r.oblige("stored", what, pos, m.inToks(q.st, toks, v.v), v.name+", which was given to it, is not encoded")
			}
			for form := 0; form < 2; form++ {
				form := form
				s := q.st.clone()
				d := newDoc(toks, func(int) bool { return form == 1 })
				rd := m.reader(s, d)
				dx := k.dec(m, s, rd)
				if len(dx) == 0 {
					r.fail("decodes", what, pos, "its encoding is never decoded")
				}
				for _, y := range dx {
					got, err := m.outcome(y)
					if !r.oblige("decodes", what, pos, got != nil && y.st.nilness(err) == 1, "its encoding ("+d.String()+") is refused when it is decoded") {
						continue
					}
					r.oblige("consumes", what, pos, m.at(y.st, rd) == len(toks), fmt.Sprintf("its encoding (%s) is decoded up to token %d only", d, m.at(y.st, rd)))
					gp, ok := got.(VPtr)
					if !ok {
						r.fail("decodes", what, pos, "nothing known is decoded")
						continue
					}
					m.e.roots = append(m.e.roots, gp)
					diff := m.same(y.st, x.(VPtr), gp, 0)
					r.oblige("property", what, pos, diff == "", diff+" of the decoded object differs from that of the one which was encoded ("+d.String()+")")
					w2 := m.writer(y.st)
					ex2 := k.enc(m, y.st, gp, w2)
					if len(ex2) == 0 {
						r.fail("field", what, pos, "the decoded object is never encoded without an error")
					}
					for _, z := range ex2 {
						diff := m.sameToks(z.st, toks, m.toks(z.st, w2))
						r.oblige("field", what, pos, diff == "", "what is encoded is not what comes back after decoding: "+diff)
					}
				}
			}
		}
	})
}

// elementBuilds are the elements of every kind.
var elementCtors = []struct{ name, ctor, contents string }{
	{"parameter", "NewParameter", "embertree.ParameterContents"},
	{"node", "NewNode", "embertree.NodeContents"},
	{"function", "NewFunction", "embertree.FunctionContents"},
	{"matrix", "NewMatrix", "embertree.MatrixContent"},
	{"qualified parameter", "NewQualifiedParameter", "embertree.ParameterContents"},
	{"qualified node", "NewQualifiedNode", "embertree.NodeContents"},
	{"qualified matrix", "NewQualifiedMatrix", "embertree.MatrixContent"},
	{"qualified function", "NewQualifiedElement", "embertree.FunctionContents"},
	{"command", "NewCommand", "embertree.CommandContents"},
}

func ctorOf(contents string) string {
	for _, c := range contentTypes {
		if c.typ == contents {
			return c.ctor
		}
	}
	return ""
}

func (m *tm) global(name string) Val {
	parts := strings.Split(name, ".")
	sp := m.r.p.pkg(parts[0])
	if sp != nil {
		if g, ok := sp.Members[parts[1]].(*ssa.Global); ok {
			return m.e.init.load(VPtr{m.e.globals[g], ""}, g.Type().(*types.Pointer).Elem())
		}
	}
	panic(budgetErr{name + " does not exist"})
}

// element makes an element by its constructor: with a number, or a path for a qualified one.
func (m *tm) element(st *State, i int, number, path Val) (*State, Val) {
	c := elementCtors[i]
	f := m.r.need("embertree." + c.ctor)
	if f == nil {
		panic(budgetErr{c.ctor + " does not exist"})
	}
	var args []Val
	for _, p := range f.Params {
		switch {
		case types.Identical(p.Type(), m.oidT()):
			args = append(args, path)
		case p.Type().String() == "int":
			args = append(args, number)
		case p.Type().String() == "uint8":
			args = append(args, m.global("embertree.QualifiedFunctionApplication"))
		case strings.HasSuffix(p.Type().String(), "ContentCreator"):
			args = append(args, VFunc{F: m.r.need("embertree.NewFunctionContents")})
		default: // the type and the mode of a matrix
			args = append(args, intV(0))
		}
	}
	return m.one(st, "embertree."+c.ctor, args...)
}

// withContents gives an element contents with all properties set.
func (m *tm) withContents(st *State, i int, el Val, which func(string) bool, rest bool) *State {
	c := elementCtors[i]
	st, x := m.contents(st, c.contents, ctorOf(c.contents), "SetInt", which, rest, nil)
	t := m.r.p.typ(c.contents)
	st, _ = m.one(st, "embertree.Element.SetContents", el, VIface{types.NewPointer(t), x})
	return st
}

// withMatrix gives a matrix n targets, sources and connections.
func (m *tm) withMatrix(st *State, el Val, n int) *State {
	for _, l := range []string{"Target", "Source", "Connection"} {
		f := m.r.need("embertree.Element.Set" + l + "s")
		nt, ok := m.r.p.typ("embertree." + l).(*types.Named)
		if f == nil || !ok {
			panic(budgetErr{l + " does not exist"})
		}
		et := f.Params[1].Type().Underlying().(*types.Slice).Elem()
		var vals []Val
		for i := 0; i < n; i++ {
			var v Val
			st, v = m.objOf(st, nt, fmt.Sprint(l, i))
			if _, ok := et.Underlying().(*types.Interface); ok {
				v = VIface{types.NewPointer(nt), v}
			}
			vals = append(vals, v)
		}
		st, _ = m.one(st, "embertree.Element.Set"+l+"s", el, m.list(st, et, vals...))
	}
	return st
}

func (m *tm) isMatrixKind(i int) bool {
	return strings.HasSuffix(elementCtors[i].contents, "MatrixContent")
}

func (m *tm) elementWith(st *State, i int, contents, children bool, matrix int) (*State, Val) {
	var number, path Val = intV(32), nil
	if strings.HasPrefix(elementCtors[i].name, "qualified") {
		path = m.sym(st, m.oidT(), "path")
	} else if elementCtors[i].name != "command" {
		number = m.sym(st, intT, "number")
	}
	st, el := m.element(st, i, number, path)
	return m.fillElement(st, i, el, contents, children, matrix), el
}

func (m *tm) fillElement(st *State, i int, el Val, contents, children bool, matrix int) *State {
	if contents {
		st = m.withContents(st, i, el, all, true)
	}
	if matrix > 0 && m.isMatrixKind(i) {
		st = m.withMatrix(st, el, matrix)
	}
	if children {
		for n, j := range []int{0, 3, 1} {
			var c Val
			st, c = m.element(st, j, intV(int64(n)), nil)
			st = m.withContents(st, j, c, func(s string) bool { return s == "SetIdentifier" }, false)
			if m.isMatrixKind(j) {
				st = m.withMatrix(st, c, 1)
			}
			st, _ = m.one(st, "embertree.Element.AddChild", el, c)
		}
	}
	return st
}

func (r *Run) elementKinds() []kind {
	k := kind{name: "embertree.Element", enc: encWith("embertree.Element.Encode"), dec: from("embertree.DecodeElement")}
	for i, c := range elementCtors {
		i := i
		k.builds = append(k.builds, build{"(" + c.name + ") without contents", func(m *tm, st *State) (*State, Val) { return m.elementWith(st, i, false, false, 0) }})
		k.builds = append(k.builds, build{"(" + c.name + ") with contents and children", func(m *tm, st *State) (*State, Val) { return m.elementWith(st, i, true, true, 2) }})
		k.builds = append(k.builds, build{"(" + c.name + ") with children", func(m *tm, st *State) (*State, Val) { return m.elementWith(st, i, false, true, 1) }})
	}
	t := kind{name: "embertree.RootElement", enc: encWith("embertree.RootElement.Encode"), dec: into("embertree.RootElement.Decode", made("embertree.NewTree"))}
	t.builds = append(t.builds, build{"without elements", made("embertree.NewTree")})
	t.builds = append(t.builds, build{"with an element", func(m *tm, st *State) (*State, Val) { return m.tree(st, true, 1) }})
	t.builds = append(t.builds, build{"with elements of all kinds", func(m *tm, st *State) (*State, Val) { return m.tree(st, true, 0, 1, 2, 3, 4, 5, 6, 7, 8) }})
	t.builds = append(t.builds, build{"with elements without contents", func(m *tm, st *State) (*State, Val) { return m.tree(st, false, 0, 3, 1) }})
	return []kind{k, t}
}

// tree makes a tree of elements of the given kinds.
func (m *tm) tree(st *State, full bool, kinds ...int) (*State, Val) {
	st, root := m.one(st, "embertree.NewTree")
	for n, i := range kinds {
		var el Val
		number := intV(int64(10 + n))
		path := m.list(st, types.Typ[types.Int32], number)
		st, el = m.element(st, i, number, path)
		st = m.fillElement(st, i, el, full, full, 1)
		st = m.choose("AddElement", m.do(st, "embertree.RootElement.AddElement", root, el)).st
	}
	return st, root
}

func (m *tm) inToks(st *State, toks []tok, v Val) bool {
	for _, t := range toks {
		if t.kind != "S" && t.kind != "E" && m.eqv(st, t.v, v, 0) {
			return true
		}
	}
	return false
}

// stored: what the setters of contents stored is written.
func (r *Run) stored(typ, ctor string) {
	r.paths(typ, func(m *tm) {
		sets := map[string]Val{}
		st, x := m.contents(m.e.start(), typ, ctor, "SetInt", all, false, sets)
		w := m.writer(st)
		for _, q := range m.do(st, typ+".Encode", x, w) {
			toks := m.toks(q.st, w)
			for name, v := range sets {
				found := m.inToks(q.st, toks, v)
				// the contents of lists are below
				if sl, ok := q.st.nv(v).(VSlice); ok && !found && isPtr(m.e.symElem(q.st, sl)) {
					continue
				}
				r.oblige("stored", typ+"."+name, r.p.fpos(typ+".Encode"), found, "what it stored is not encoded")
			}
		}
	})
}

// symElem is the type of the elements of a slice.
func (e *Engine) symElem(st *State, s VSlice) types.Type {
	if at, ok := e.pathType(st.objs[s.O].T, s.P).Underlying().(*types.Array); ok {
		return at.Elem()
	}
	return intT
}

func (r *Run) c09() {
	r.rule("decodes: the tokens which the encoder of an object writes are decoded without an error, in both length forms")
	r.rule("property: every exported field and query of the decoded object yields what it yields on the encoded one")
	r.rule("field: the decoded object is encoded to the same tokens (field numbers, value types, symbols) again")
	r.rule("stored: what a setter stored is written by the encoder")
	r.rule("consumes: the decoder leaves the reader right after the item")
	for _, c := range contentTypes {
		r.stored(c.typ, c.ctor)
	}
	for _, ks := range [][]kind{r.leafKinds(), r.elementKinds()} {
		for _, k := range ks {
			for _, b := range k.builds {
				r.roundTrip(k, b)
			}
		}
		if len(r.finds) > 0 {
			return // what is below elements is known to fail
		}
	}
}
