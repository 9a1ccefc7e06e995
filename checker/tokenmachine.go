package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A tok is one thing written by the BER writer: the start or end of a sequence, or a value.
type tok struct {
	kind string // S E int int64 bool real str buf oid null
	tag  int64
	v    Val
}

func (t tok) shape() string { return fmt.Sprintf("%s%x", t.kind, t.tag) }

// A doc is a list of tokens to be read, with the length form of each sequence.
type doc struct {
	toks  []tok
	def   []bool
	close []int // the end of each sequence
}

func newDoc(toks []tok, form func(i int) bool) *doc {
	d := &doc{toks: toks, def: make([]bool, len(toks)), close: make([]int, len(toks))}
	var open []int
	for i, t := range toks {
		switch t.kind {
		case "S":
			d.def[i] = form(i)
			d.close[i] = len(toks)
			open = append(open, i)
		case "E":
			if len(open) > 0 {
				d.close[open[len(open)-1]] = i
				open = open[:len(open)-1]
			}
		}
	}
	return d
}

func (d *doc) String() string {
	var p []string
	for i, t := range d.toks {
		s := t.shape()
		if t.kind == "S" && d.def[i] {
			s += "d"
		}
		p = append(p, s)
	}
	if len(p) > 60 {
		p = append(p[:60], "...")
	}
	return strings.Join(p, " ")
}

type symv struct {
	name string
	v    Val
}

// tm is the token machine: it stands for the BER writer and reader. Everything else is analysed.
type tm struct {
	r     *Run
	e     *Engine
	docs  []*doc
	fails bool // writes of strings and buffers may fail
	wt    types.Type
	rt    types.Type
	what  string // for reports
	bad   bool   // an operation outside the model was met
	syms  []symv // what was given to the constructors and setters of the object
	norec bool

	// calls with several outcomes: which one is followed
	script, taken, of []int
	read              func(st *State, t tok)
}

func (r *Run) newTM() *tm {
	e := r.engine()
	e.cap, e.fine, e.exitCap, e.peel, e.coarse = 300, 300, 300, 2, 300
	m := &tm{r: r, e: e, wt: r.p.typ("asn1.ASNWriter"), rt: r.p.typ("asn1.ASNReader")}
	if m.wt == nil || m.rt == nil {
		r.fail("anchor", "asn1.ASNWriter", "", "the BER reader and writer do not exist")
		return nil
	}
	e.unroll = 8
	e.onCall = m.call
	e.onInvoke = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if e.isLogger(cc) {
			return e.results(st, cc.Sig, cc.Name, false), true
		}
		return nil, false
	}
	e.stateKey = m.key
	return m
}

// key: states which wrote or read differently are not joined.
func (m *tm) key(st *State) string {
	var ks []string
	for id, o := range st.objs {
		switch {
		case types.Identical(o.T, m.wt):
			s := fmt.Sprint("w", id)
			for _, t := range m.toks(st, VPtr{id, ""}) {
				s += " " + t.shape()
			}
			ks = append(ks, s)
		case types.Identical(o.T, m.rt) && !o.Lazy:
			ks = append(ks, fmt.Sprint("r", vkey(o.Cells["#doc"]), vkey(o.Cells["#pos"]), vkey(o.Cells["#end"])))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (m *tm) toks(st *State, w VPtr) []tok {
	o := st.objs[w.O]
	if o == nil {
		return nil
	}
	l, _ := o.Cells["#toks"].(VTuple)
	var out []tok
	for _, x := range l {
		t := x.(VTuple)
		out = append(out, tok{t[0].(VStr).S, t[1].(VInt).L.C, st.nv(t[2])})
	}
	return out
}

func (m *tm) emit(st *State, w VPtr, kind string, tag int64, v Val) {
	if v == nil {
		v = VNil{}
	}
	l, _ := st.objs[w.O].Cells["#toks"].(VTuple)
	n := append(append(VTuple(nil), l...), VTuple{VStr{kind}, intV(tag), v})
	st.wobj(w.O).Cells["#toks"] = n
}

func (m *tm) writer(st *State) VPtr {
	w := VPtr{st.alloc(m.wt, "writer"), ""}
	m.e.roots = append(m.e.roots, w)
	return w
}

func (m *tm) reader(st *State, d *doc) VPtr {
	m.docs = append(m.docs, d)
	rd := m.reader1(st, len(m.docs)-1, 0, len(d.toks))
	m.e.roots = append(m.e.roots, rd)
	for _, t := range d.toks {
		m.e.roots = append(m.e.roots, t.v)
	}
	return rd
}

func (m *tm) reader1(st *State, d, pos, end int) VPtr {
	p := VPtr{st.alloc(m.rt, "reader"), ""}
	st.setAttr(p, "#doc", intV(int64(d)))
	st.setAttr(p, "#pos", intV(int64(pos)))
	st.setAttr(p, "#end", intV(int64(end)))
	return p
}

func (m *tm) unmodelled(cc *CallCtx, why string) []Exit {
	m.bad = true
	panic(budgetErr{why + " at " + m.r.p.pos(cc.Site) + " (" + m.what + ")"})
}

func (m *tm) constTag(st *State, cc *CallCtx, i int) int64 {
	c, ok := constOf(st.nv(cc.Args[i]))
	if !ok {
		m.unmodelled(cc, "the tag given to "+cc.Fn.Name()+" is not known")
	}
	return c & 255
}

func (m *tm) call(st *State, cc *CallCtx) ([]Exit, bool) {
	if strings.HasPrefix(cc.Name, "(*sync.Mutex).") || strings.HasPrefix(cc.Name, "(*sync.RWMutex).") {
		return m.e.results(st, cc.Sig, cc.Name, false), true // one goroutine
	}
	if name := m.e.writerMethod(cc); name != "" {
		return m.write(st, cc, name), true
	}
	if name := m.e.readerMethod(cc); name != "" {
		return m.readOp(st, cc, name), true
	}
	return nil, false
}

func (m *tm) write(st *State, cc *CallCtx, name string) []Exit {
	e := m.e
	if name == "NewASNWriter" {
		return ret(st, m.writer(st))
	}
	if !e.checkNil(st, cc.Site, cc.Args[0], "receiver of ASNWriter."+name) {
		return nil
	}
	w, ok := st.ptr(cc.Args[0])
	if !ok {
		return m.unmodelled(cc, "an unknown writer is used")
	}
	okV := func() []Exit { return ret(st, VNil{}) }
	emit := func(kind string, tag int64, v Val) []Exit {
		m.emit(st, w, kind, tag, v)
		return okV()
	}
	may := func(kind string, tag int64, v Val) []Exit {
		var out []Exit
		if m.fails {
			x := st.clone()
			x.g["failed"] = intV(1)
			out = append(out, Exit{x, m.errOfT(x, cc.resT())})
		}
		m.emit(st, w, kind, tag, v)
		return append(out, Exit{st, VNil{}})
	}
	switch name {
	case "Len":
		n := e.newInt(intT, "written", 0, 1<<40)
		if len(m.toks(st, w)) > 0 {
			n = e.newInt(intT, "written", 1, 1<<40)
		}
		return ret(st, VInt{n})
	case "Read":
		st.havoc(cc.Args[1])
		m.emit(st, w, "read", 0, nil)
		return e.results(st, cc.Sig, name, false)
	case "StartSequence":
		return emit("S", m.constTag(st, cc, 1), nil)
	case "EndSequence":
		return emit("E", 0, nil)
	case "WriteIntTag":
		return emit("int", m.constTag(st, cc, 2), m.int32Of(st, cc.Args[1]))
	case "WriteInt":
		return emit("int", 2, m.int32Of(st, cc.Args[1]))
	case "WriteEnum":
		return emit("int", 10, m.int32Of(st, cc.Args[1]))
	case "WriteInt64Tag":
		return emit("int64", m.constTag(st, cc, 2), st.nv(cc.Args[1]))
	case "WriteInt64":
		return emit("int64", 2, st.nv(cc.Args[1]))
	case "WriteNull":
		return emit("null", 5, nil)
	case "WriteBoolean":
		return emit("bool", 1, st.nv(cc.Args[1]))
	case "WriteReal":
		return emit("real", 9, st.nv(cc.Args[1]))
	case "WriteString":
		return may("str", 12, st.nv(cc.Args[1]))
	case "WriteBuffer":
		return may("buf", m.constTag(st, cc, 2), st.nv(cc.Args[1]))
	case "WriteRelativeOID":
		return may("oid", 13, st.nv(cc.Args[1]))
	}
	return m.unmodelled(cc, "ASNWriter."+name+" is not modelled")
}

// int32Of: the writer of integers writes 32 bits.
func (m *tm) int32Of(st *State, v Val) Val {
	v = st.nv(v)
	if x, ok := v.(VInt); ok && st.lower(x.L) >= -1<<31 && st.upper(x.L) <= 1<<31-1 {
		return v
	}
	return VInt{m.e.newInt(intT, "truncated", -1<<31, 1<<31-1)}
}

func (m *tm) errOfT(st *State, t types.Type) Val {
	v := m.e.fresh(t, "err")
	st.setNonNil(v)
	return v
}

func (m *tm) readOp(st *State, cc *CallCtx, name string) []Exit {
	e := m.e
	if name == "NewASNReader" {
		return m.unmodelled(cc, "a reader on other bytes is made")
	}
	if !e.checkNil(st, cc.Site, cc.Args[0], "receiver of ASNReader."+name) {
		return nil
	}
	rd, ok := st.ptr(cc.Args[0])
	if !ok {
		return m.unmodelled(cc, "an unknown reader is used")
	}
	dc, ok1 := constOf(st.attr(rd, "#doc"))
	pc, ok2 := constOf(st.attr(rd, "#pos"))
	ec, ok3 := constOf(st.attr(rd, "#end"))
	if !ok1 || !ok2 || !ok3 {
		return m.unmodelled(cc, "the position of a reader is not known")
	}
	d, pos, end := m.docs[dc], int(pc), int(ec)
	moveTo := func(n int) { st.setAttr(rd, "#pos", intV(int64(n))) }
	sig := cc.Sig
	pack := func(vals ...Val) Val {
		if len(vals) == 1 {
			return vals[0]
		}
		return VTuple(vals)
	}
	fail := func() []Exit {
		var vals []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if e.isErrT(t) {
				vals = append(vals, m.errOfT(st, t))
			} else {
				vals = append(vals, e.zero(t))
			}
		}
		return ret(st, pack(vals...))
	}
	failed := func() []Exit {
		st.g["failed"] = intV(1)
		moveTo(-1)
		return fail()
	}
	cur := tok{kind: "end"}
	if pos >= 0 && pos < end {
		cur = d.toks[pos]
	}
	switch name {
	case "Len":
		if pos < 0 {
			return ret(st, VInt{e.newInt(intT, "left", 0, 1<<40)})
		}
		if cur.kind == "end" {
			return ret(st, intV(0))
		}
		return ret(st, VInt{e.newInt(intT, "left", 2, 1<<40)})
	case "Offset", "TopOffset":
		return ret(st, VInt{e.newInt(intT, "offset", 0, 1<<40)})
	case "Peek":
		switch {
		case cur.kind == "end":
			return fail()
		case cur.kind == "E":
			return ret(st, pack(intV(0), VNil{}))
		}
		return ret(st, pack(intV(cur.tag), VNil{}))
	case "CheckSequenceEnd":
		switch {
		case pos < 0:
			return fail()
		case cur.kind == "end":
			return ret(st, pack(boolV(true), VNil{}))
		case cur.kind == "E":
			moveTo(pos + 1)
			return ret(st, pack(boolV(true), VNil{}))
		}
		return ret(st, pack(boolV(false), VNil{}))
	case "ReadSequenceEnd":
		switch {
		case pos < 0:
			return fail()
		case cur.kind == "end":
			return ret(st, VNil{})
		case cur.kind == "E":
			moveTo(pos + 1)
			return ret(st, VNil{})
		}
		st.g["failed"] = intV(1)
		return fail()
	case "ReadSequenceStart":
		tag := m.constTag(st, cc, 1)
		if cur.kind == "end" || cur.kind == "E" && tag != 0 || cur.tag != tag {
			return failed()
		}
		if cur.kind != "S" {
			return m.unmodelled(cc, "a value is read as a sequence")
		}
		cl := d.close[pos]
		if m.read != nil {
			m.read(st, cur)
		}
		if d.def[pos] {
			var l Val = intV(0)
			if cl > pos+1 {
				l = VInt{e.newInt(intT, "length", 2, 1<<40)}
			}
			moveTo(cl + 1)
			return ret(st, pack(l, m.reader1(st, int(dc), pos+1, cl), VNil{}))
		}
		if cl == pos+1 {
			moveTo(cl + 1)
			return ret(st, pack(intV(0), m.reader1(st, int(dc), cl, cl), VNil{}))
		}
		moveTo(pos + 1)
		return ret(st, pack(intV(-1), st.nv(cc.Args[0]), VNil{}))
	}
	val := func(kinds string, tag int64) []Exit {
		if !strings.Contains(kinds, ","+cur.kind+",") || cur.tag != tag {
			return failed()
		}
		if m.read != nil {
			m.read(st, cur)
		}
		moveTo(pos + 1)
		return ret(st, pack(cur.v, VNil{}))
	}
	switch name {
	case "ReadBoolean":
		return val(",bool,", 1)
	case "ReadInt":
		if cur.kind == "int" || cur.kind == "int64" {
			if x, ok := st.nv(cur.v).(VInt); ok && (st.lower(x.L) < -1<<31 || st.upper(x.L) > 1<<31-1) {
				return m.unmodelled(cc, "a 64 bit number is read as one of 32 bits")
			}
		}
		return val(",int,int64,", 2)
	case "ReadInt64":
		return val(",int,int64,", 2)
	case "ReadReal":
		return val(",real,", 9)
	case "ReadString":
		return val(",str,", 12)
	case "ReadBitString":
		return val(",buf,", 3)
	case "ReadOctetString":
		return val(",buf,", 4)
	case "ReadOID":
		return val(",oid,", m.constTag(st, cc, 1))
	}
	return m.unmodelled(cc, "ASNReader."+name+" is not modelled")
}

// left tells where a reader stands in its document: -1 after a failure.
func (m *tm) at(st *State, rd VPtr) int {
	c, _ := constOf(st.attr(rd, "#pos"))
	return int(c)
}

// ---- equality of what is observed

// eqv: two values are the same for a user.
func (m *tm) eqv(st *State, a, b Val, depth int) bool {
	a, b = st.nv(a), st.nv(b)
	if vkey(a) == vkey(b) {
		return true
	}
	if depth > 6 {
		return false
	}
	na, nb := st.nilness(a), st.nilness(b)
	_, sa := m.sliceT(st, a)
	_, sb := m.sliceT(st, b)
	if sa || sb {
		la, lb := st.norm(st.lenOf(a)), st.norm(st.lenOf(b))
		if !la.eq(lb) {
			return false
		}
		if la.isC() && la.C == 0 {
			return true
		}
		x, ok1 := st.slice(a)
		y, ok2 := st.slice(b)
		if !ok1 || !ok2 {
			return false
		}
		if segKey(st, m.e.sliceSegs(st, x)) == segKey(st, m.e.sliceSegs(st, y)) {
			return true
		}
		if !la.isC() || la.C > 64 {
			return false
		}
		for i := int64(0); i < la.C; i++ {
			if !m.eqv(st, m.elemAt(st, x, i), m.elemAt(st, y, i), depth+1) {
				return false
			}
		}
		return true
	}
	if na == 1 || nb == 1 {
		return na == 1 && nb == 1
	}
	if x, ok := a.(VIface); ok {
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && m.eqv(st, x.V, y.V, depth)
	}
	ca, okA := a.(VCond)
	cb, okB := b.(VCond)
	if okA || okB {
		return okA && okB && vkey(ca) == vkey(cb)
	}
	pa, ok1 := a.(VPtr)
	pb, ok2 := b.(VPtr)
	if ok1 && ok2 {
		return m.same(st, pa, pb, depth+1) == ""
	}
	if x, ok := a.(VAgg); ok {
		y, ok := b.(VAgg)
		if !ok {
			return false
		}
		res := true
		m.e.leaves(x.T, func(p string, t types.Type) {
			if res && !m.eqv(st, st.aggGet(x, p, t), st.aggGet(y, p, t), depth+1) {
				res = false
			}
		})
		return res
	}
	if x, ok := a.(VTuple); ok {
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !m.eqv(st, x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func segKey(st *State, s []Seg) string {
	return vkey(VSegs{compact(st, s)})
}

func (m *tm) sliceT(st *State, v Val) (types.Type, bool) {
	switch x := v.(type) {
	case VSlice:
		return nil, true
	case VSym:
		t, ok := m.e.symT(x.S).Underlying().(*types.Slice)
		return t, ok
	}
	return nil, false
}

func (m *tm) elemAt(st *State, s VSlice, i int64) Val {
	o := st.objs[s.O]
	t := m.e.pathType(o.T, s.P)
	var et types.Type = intT
	if at, ok := t.Underlying().(*types.Array); ok {
		et = at.Elem()
	}
	ix := st.norm(s.Off.addC(i))
	return st.nv(st.load(VPtr{s.O, fmt.Sprintf("%s[%s]", s.P, m.e.linKey(ix))}, et))
}

// queries are the exported methods without arguments which tell something about a value.
func (m *tm) queries(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !m.e.isRepoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	ms := m.e.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f := m.e.prog.MethodValue(ms.At(i))
		if f == nil || f.Blocks == nil || !isExported(f) || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() == 0 {
			continue
		}
		if nm := f.Name(); strings.HasPrefix(nm, "Get") && nm != "GetParent" || strings.HasPrefix(nm, "Is") || strings.HasPrefix(nm, "Has") {
			out = append(out, f)
		}
	}
	return out
}

// same compares two objects by their exported fields and queries; it returns what differs.
func (m *tm) same(st *State, a, b VPtr, depth int) string {
	if a == b {
		return ""
	}
	oa, ob := st.objs[a.O], st.objs[b.O]
	if oa == nil || ob == nil {
		return "?"
	}
	t, u := m.e.pathType(oa.T, a.P), m.e.pathType(ob.T, b.P)
	if !types.Identical(t, u) {
		return "the type"
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				if d := m.sameMap(st, st.load(VPtr{a.O, a.P + "." + f.Name()}, f.Type()), st.load(VPtr{b.O, b.P + "." + f.Name()}, f.Type()), depth+1); d != "" {
					return f.Name() + " " + d
				}
				continue
			}
			if !m.eqv(st, st.load(VPtr{a.O, a.P + "." + f.Name()}, f.Type()), st.load(VPtr{b.O, b.P + "." + f.Name()}, f.Type()), depth+1) {
				return f.Name()
			}
		}
	}
	for _, f := range m.queries(t) {
		if d := m.sameQuery(st, f, a, b, depth+1); d != "" {
			return d
		}
	}
	return ""
}

func (m *tm) sameMap(st *State, a, b Val, depth int) string {
	if st.nilness(a) == 1 && st.nilness(b) == 1 {
		return ""
	}
	pa, ok1 := st.ptr(a)
	pb, ok2 := st.ptr(b)
	if !ok1 || !ok2 {
		return "?"
	}
	ka, kb := m.e.mapKeysOf(st, pa), m.e.mapKeysOf(st, pb)
	oa, ob := st.objs[pa.O], st.objs[pb.O]
	if len(ka) != len(kb) || mapOthers(oa) || mapOthers(ob) {
		return "number of entries"
	}
	for _, k := range ka {
		v, has := ob.Cells[k]
		if !has || !m.eqv(st, oa.Cells[k], v, depth) {
			return "entry " + k
		}
	}
	return ""
}

func (m *tm) sameQuery(st *State, f *ssa.Function, a, b VPtr, depth int) string {
	sig := f.Signature
	if depth > 4 {
		return ""
	}
	for _, x := range m.e.callFn(st.clone(), &CallCtx{Fn: f, Name: f.String(), Args: []Val{a}, Sig: sig}) {
		for _, y := range m.e.callFn(x.st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{b}, Sig: sig}) {
			ex, isE := errOf(m.e, sig, x.res)
			if isE {
				ey, _ := errOf(m.e, sig, y.res)
				nx, ny := y.st.nilness(ex), y.st.nilness(ey)
				if nx != ny {
					return f.Name()
				}
				if nx == 2 {
					continue
				}
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if m.e.isErrT(sig.Results().At(i).Type()) {
					continue
				}
				if !m.eqv(y.st, resAt(sig, x.res, i), resAt(sig, y.res, i), depth) {
					return f.Name()
				}
			}
		}
	}
	return ""
}

// sameToks compares two token lists; it returns what differs.
func (m *tm) sameToks(st *State, a, b []tok) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("%s is added%s", b[i].shape(), m.where(b, i))
		}
		if i >= len(b) {
			return fmt.Sprintf("%s is missing%s", a[i].shape(), m.where(a, i))
		}
		if a[i].shape() != b[i].shape() {
			return fmt.Sprintf("%s became %s%s", a[i].shape(), b[i].shape(), m.where(a, i))
		}
		if !m.eqv(st, a[i].v, b[i].v, 0) {
			return fmt.Sprintf("the value of %s changed%s", a[i].shape(), m.where(a, i))
		}
	}
	return ""
}

// where names the sequences around a token.
func (m *tm) where(l []tok, i int) string {
	var open []string
	for _, t := range l[:i] {
		if t.kind == "S" {
			open = append(open, fmt.Sprintf("%x", t.tag))
		} else if t.kind == "E" && len(open) > 0 {
			open = open[:len(open)-1]
		}
	}
	if len(open) == 0 {
		return ""
	}
	return " in " + strings.Join(open, ".")
}

// ---- building objects through the exported interface

// do calls a function and keeps the executions which do not fail.
func (m *tm) do(st *State, name string, args ...Val) []Exit {
	f := m.r.need(name)
	if f == nil {
		panic(budgetErr{name + " does not exist"})
	}
	return m.doF(st, f, args...)
}

func (m *tm) doF(st *State, f *ssa.Function, args ...Val) []Exit {
	var out []Exit
	for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: args, Sig: f.Signature}) {
		if err, ok := errOf(m.e, f.Signature, x.res); ok && x.st.nilness(err) != 1 {
			continue
		}
		m.e.roots = append(m.e.roots, x.res)
		out = append(out, x)
	}
	return out
}

// pick chooses one of several outcomes; paths follows each of them in turn.
func (m *tm) pick(n int) int {
	k := 0
	if len(m.taken) < len(m.script) {
		k = m.script[len(m.taken)]
	}
	m.taken, m.of = append(m.taken, k), append(m.of, n)
	return k
}

// choose follows one of the outcomes of a call which has to have some.
func (m *tm) choose(name string, ex []Exit) Exit {
	switch len(ex) {
	case 0:
		panic(budgetErr{name + " has no successful outcome"})
	case 1:
		return ex[0]
	}
	return ex[m.pick(len(ex))]
}

// paths runs an analysis with every choice between the outcomes of the calls it makes.
func (r *Run) paths(what string, f func(m *tm)) {
	var script []int
	for n := 0; n < 128; n++ {
		m := r.newTM()
		if m == nil {
			return
		}
		m.what, m.script = what, script
		if !r.guard(what, m.e, func() { f(m) }) {
			return
		}
		i := len(m.taken) - 1
		for ; i >= 0 && m.taken[i]+1 >= m.of[i]; i-- {
		}
		if i < 0 {
			return
		}
		script = append(append([]int(nil), m.taken[:i]...), m.taken[i]+1)
	}
	r.fail("analysis", what, "", "nothing could be established: there are too many paths")
}

// one is do for a call of which one outcome is followed.
func (m *tm) one(st *State, name string, args ...Val) (*State, Val) {
	x := m.choose(name, m.do(st, name, args...))
	v := x.res
	if t, ok := v.(VTuple); ok && len(t) > 0 {
		v = t[0]
	}
	return x.st, x.st.nv(v)
}

func (m *tm) sym(st *State, t types.Type, name string) Val {
	v := m.sym1(st, t, name)
	if !m.norec {
		m.syms = append(m.syms, symv{name, v})
	}
	return v
}

func (m *tm) sym1(st *State, t types.Type, name string) Val {
	e := m.e
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Int {
			v := VInt{e.newInt(t, name, -1<<31, 1<<31-1)}
			e.roots = append(e.roots, v)
			return v
		}
	case *types.Slice:
		if isIntT(u.Elem()) {
			v := e.fresh(t, name)
			st.setNonNil(v)
			st.assumeLE0(lc(1).sub(st.lenOf(v)))
			e.roots = append(e.roots, v)
			return v
		}
	}
	v := e.fresh(t, name)
	e.roots = append(e.roots, v)
	return v
}

func (m *tm) list(st *State, et types.Type, vals ...Val) Val {
	n := lc(int64(len(vals)))
	id := st.alloc(types.NewArray(et, int64(len(vals))), "list")
	for i, v := range vals {
		st.store(VPtr{id, fmt.Sprintf("[%d]", i)}, v, et)
	}
	s := VSlice{id, "", lc(0), n, n}
	m.e.roots = append(m.e.roots, s)
	return s
}
