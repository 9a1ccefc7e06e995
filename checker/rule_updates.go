package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = check{run: (*Run).c15, expl: "The exported updates - of an element by an element, and of a tree by a message given as a list of BER tokens - are executed abstractly on existing and received elements of every kind, in plain and qualified form, with every selection of contents, targets, sources, connections and children on either side. What the exported queries of every element of the tree say afterwards is compared with the merge of what they said of both before."}
	checks["C16"] = check{run: (*Run).c16, expl: "The same updates are executed with listeners on the tree and on all its elements, some of which are removed before: the calls of listeners are recorded. Every element which was updated, gained a child by path or got new contents has to have called each of its listeners with itself, and so has the tree for a message; removed listeners are never called."}
}

// view is what the exported queries say of an element.
type view struct {
	el       Val
	tag      string
	path     Val
	typ      string
	contents []tok
	lists    map[string][]tok
	conns    map[int64][]tok
	kids     map[int64]*view
	parent   Val
}

func (m *tm) keep(ts []tok) []tok {
	for _, t := range ts {
		m.e.roots = append(m.e.roots, t.v)
	}
	return ts
}

func (m *tm) encoded(st *State, f string, args ...Val) (*State, []tok) {
	w := m.writer(st)
	x := m.choose(f, m.do(st, f, append(args, w)...))
	return x.st, m.keep(m.toks(x.st, w))
}

func (m *tm) view(st *State, el Val) (*State, *view) {
	v := &view{el: st.nv(el), lists: map[string][]tok{}, conns: map[int64][]tok{}, kids: map[int64]*view{}}
	p, ok := st.ptr(el)
	if !ok {
		panic(budgetErr{"an element of the tree is not known"})
	}
	var x Val
	st, x = m.one(st, "embertree.Element.GetTag", el)
	v.tag = vkey(x)
	st, v.path = m.one(st, "embertree.Element.GetPath", el)
	st, v.parent = m.one(st, "embertree.Element.GetParent", el)
	m.e.roots = append(m.e.roots, v.path, v.parent)
	st, x = m.one(st, "embertree.Element.GetContent", el)
	if st.nilness(x) != 1 {
		i, ok := st.nv(x).(VIface)
		if !ok {
			panic(budgetErr{"the contents of an element are not known"})
		}
		v.typ = shortT(i.T)
		st, v.contents = m.encoded(st, v.typ+".Encode", i.V)
	}
	for _, l := range []string{"Targets", "Sources", "Connections"} {
		ex := m.do(st.clone(), "embertree.Element.Get"+l, el)
		if len(ex) == 0 {
			continue // not a matrix
		}
		a := m.choose("Get"+l, ex)
		st, x = a.st, resAt(m.r.need("embertree.Element.Get"+l).Signature, a.res, 0)
		n := st.norm(st.lenOf(x))
		if !n.isC() {
			panic(budgetErr{"the number of " + strings.ToLower(l) + " of an element is not known"})
		}
		if n.C == 0 {
			continue
		}
		s, ok := st.slice(st.nv(x))
		if !ok {
			panic(budgetErr{"the " + strings.ToLower(l) + " of an element are not known"})
		}
		if l != "Connections" {
			st, v.lists[l] = m.encoded(st, "embertree.Element.Encode"+l, el)
			continue
		}
		for i := int64(0); i < n.C; i++ {
			cp := m.elemAt(st, s, i)
			q, ok := st.ptr(cp)
			if !ok {
				panic(budgetErr{"a connection of an element is not known"})
			}
			t, ok := constOf(st.nv(st.load(VPtr{q.O, q.P + ".Target"}, types.Typ[types.Int32])))
			if !ok {
				panic(budgetErr{"the target of a connection of an element is not known"})
			}
			if v.conns[t] != nil {
				v.conns[t] = append(v.conns[t], tok{kind: "twice"})
				continue
			}
			st, v.conns[t] = m.encoded(st, "embertree.Connection.Encode", cp)
		}
	}
	f := m.kidsField()
	kp, ok := st.ptr(st.load(VPtr{p.O, p.P + "." + f.Name()}, f.Type()))
	if !ok || mapOthers(st.objs[kp.O]) {
		panic(budgetErr{"the children of an element are not known"})
	}
	for _, k := range m.e.mapKeysOf(st, kp) {
		n, ok := constOf(m.e.keyOf(k))
		if !ok {
			panic(budgetErr{"the number of a child is not known"})
		}
		st, v.kids[n] = m.view(st, st.objs[kp.O].Cells[k])
	}
	return st, v
}

func (m *tm) kidsField() *types.Var {
	t, _ := m.r.p.typ("embertree.Element").Underlying().(*types.Struct)
	for i := 0; t != nil && i < t.NumFields(); i++ {
		if t.Field(i).Name() == "Children" {
			return t.Field(i)
		}
	}
	panic(budgetErr{"embertree.Element.Children does not exist"})
}

// merge is what is expected of an element after an update.
func merge(a, b *view) *view {
	c := *a
	if b.typ != "" {
		c.typ, c.contents = b.typ, b.contents
	}
	c.lists, c.conns, c.kids = map[string][]tok{}, map[int64][]tok{}, map[int64]*view{}
	for _, v := range []*view{a, b} {
		for k, l := range v.lists {
			c.lists[k] = l
		}
		for k, l := range v.conns {
			c.conns[k] = l
		}
	}
	for n, k := range a.kids {
		c.kids[n] = k
	}
	for n, k := range b.kids {
		if o := a.kids[n]; o != nil {
			c.kids[n] = merge(o, k)
		} else {
			c.kids[n] = k.below(a)
		}
	}
	return &c
}

// below is an element which is new below another one.
func (v *view) below(a *view) *view {
	c := *v
	c.el, c.path, c.parent = nil, nil, nil
	if a != nil {
		c.parent = a.el
	}
	c.kids = map[int64]*view{}
	for n, k := range v.kids {
		d := k.below(nil)
		c.kids[n] = d
	}
	return &c
}

func sortedK[T any](m map[int64]T) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// differs compares an element with what is expected.
func (m *tm) differs(st *State, got, want *view) string {
	if want.el != nil && vkey(st.nv(got.el)) != vkey(st.nv(want.el)) {
		return "the element is replaced by another one"
	}
	if got.tag != want.tag {
		return "the tag changed"
	}
	if want.path != nil && !m.eqv(st, got.path, want.path, 0) {
		return "the path changed"
	}
	if want.parent != nil && vkey(st.nv(got.parent)) != vkey(st.nv(want.parent)) {
		return "the parent is another one"
	}
	if got.typ != want.typ {
		return fmt.Sprintf("the contents are %q instead of %q", got.typ, want.typ)
	}
	if d := m.sameToks(st, want.contents, got.contents); d != "" {
		return "the contents are not the expected ones: " + d
	}
	for _, l := range []string{"Targets", "Sources"} {
		if d := m.sameToks(st, want.lists[l], got.lists[l]); d != "" {
			return "the " + strings.ToLower(l) + " are not the expected ones: " + d
		}
	}
	for _, l := range []map[int64][]tok{want.conns, got.conns} {
		for _, t := range sortedK(l) {
			if want.conns[t] == nil || got.conns[t] == nil {
				return fmt.Sprintf("the connection of target %d is there or missing unexpectedly", t)
			}
			if d := m.sameToks(st, want.conns[t], got.conns[t]); d != "" {
				return fmt.Sprintf("the connection of target %d is not the expected one: %s", t, d)
			}
		}
	}
	for _, l := range []map[int64]*view{want.kids, got.kids} {
		for _, n := range sortedK(l) {
			if want.kids[n] == nil || got.kids[n] == nil {
				return fmt.Sprintf("child %d is there or missing unexpectedly", n)
			}
		}
	}
	for _, n := range sortedK(want.kids) {
		w, g := *want.kids[n], got.kids[n]
		if want.el == nil && w.el == nil && w.parent == nil {
			w.parent = got.el // a new one below a new one
		}
		if d := m.differs(st, g, &w); d != "" {
			return fmt.Sprintf("child %d: %s", n, d)
		}
	}
	return ""
}

// parts of an element: c contents, t targets, s sources, n connections, k children
func (m *tm) parts(st *State, i int, el Val, parts string, received bool) *State {
	has := func(s string) bool { return strings.Contains(parts, s) }
	name := "known"
	if received {
		name = "received"
	}
	if has("C") {
		st = m.withContents(st, i, el, all, true)
	} else if has("c") {
		st = m.withContents(st, i, el, func(s string) bool { return s == "SetIdentifier" }, false)
	}
	if m.isMatrixKind(i) {
		for _, l := range []string{"Target", "Source", "Connection"} {
			c := map[string]string{"Target": "t", "Source": "s", "Connection": "n"}[l]
			if !has(c) {
				continue
			}
			f := m.r.need("embertree.Element.Set" + l + "s")
			nt, ok := m.r.p.typ("embertree." + l).(*types.Named)
			if f == nil || !ok {
				panic(budgetErr{l + " does not exist"})
			}
			et := f.Params[1].Type().Underlying().(*types.Slice).Elem()
			var vals []Val
			ns := []int64{1, 70000}
			if received {
				ns = []int64{70000, 3, 65537}
			}
			for _, n := range ns {
				var v Val
				st, v = m.objOf(st, nt, fmt.Sprint(name, l, n))
				if l == "Connection" {
					st.store(VPtr{v.(VPtr).O, ".Target"}, intV(n), types.Typ[types.Int32])
				}
				if _, ok := et.Underlying().(*types.Interface); ok {
					v = VIface{types.NewPointer(nt), v}
				}
				vals = append(vals, v)
			}
			st, _ = m.one(st, "embertree.Element.Set"+l+"s", el, m.list(st, et, vals...))
		}
	}
	return st
}

// node is a described element.
type node struct {
	kind  int
	path  []int64 // all of it, as far as it is in it
	parts string
	kids  []node
}

func nd(kind int, parts string, number int64, kids ...node) node {
	return node{kind, []int64{number}, parts, kids}
}

// by a whole path
func nq(kind int, parts string, path []int64, kids ...node) node {
	return node{kind, path, parts, kids}
}

func (m *tm) grow(st *State, n node, received bool) (*State, Val) {
	var vs []Val
	for _, p := range n.path {
		vs = append(vs, intV(p))
	}
	st, el := m.element(st, n.kind, vs[len(vs)-1], m.list(st, types.Typ[types.Int32], vs...))
	st = m.parts(st, n.kind, el, n.parts, received)
	if elementCtors[n.kind].name == "matrix" && !strings.ContainsAny(n.parts, "cC") {
		// a matrix is made with contents; one which was decoded without them has none
		el, st = m.without(st, el)
	}
	for _, k := range n.kids {
		var c Val
		st, c = m.grow(st, k, received)
		st, _ = m.one(st, "embertree.Element.AddChild", el, c)
	}
	return st, el
}

// without gives a matrix no contents, as the decoder does.
func (m *tm) without(st *State, el Val) (Val, *State) {
	p, _ := st.ptr(el)
	t := m.r.p.typ("embertree.Element").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if n, ok := t.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "EmberContents" {
			st.store(VPtr{p.O, p.P + "." + t.Field(i).Name()}, VNil{}, t.Field(i).Type())
		}
	}
	return el, st
}

var (
	plainKinds = []int{0, 1, 2, 3}
	otherForm  = map[int]int{0: 4, 1: 5, 2: 7, 3: 6, 4: 0, 5: 1, 6: 3, 7: 2}
)

// knownKids and sentKids are children on both sides.
func knownKids(bare bool) []node {
	c, m := "c", "ctsn"
	if bare {
		c, m = "", ""
	}
	return []node{nd(0, c, 1), nd(1, c, 2, nd(0, c, 5), nd(2, "c", 65538)), nd(3, m, 3)}
}

func sentKids(deep, full bool) []node {
	c, m := "", "n"
	if full {
		c, m = "c", "ctsn"
	}
	k := nd(1, c, 2)
	if deep {
		k = nd(1, c, 2, nd(0, "c", 5), nd(1, "c", 6, nd(0, "c", 1)))
	}
	return []node{k, nd(3, m, 3), nd(2, "c", 65537)}
}

func (r *Run) updateRules() *ssa.Function { return r.need("embertree.Element.Update") }

func (r *Run) c15() {
	r.rule("merge: after an update, the element has the contents, targets, sources and connections which were received, and those it had for what was not; known children are updated in place and new ones added with their parent")
	r.rule("refused: an update by an element of another number or kind returns an error and changes nothing")
	r.rule("message: after a message, the elements it names are merged into those of the tree, new ones are added in their place, and all others are as before")
	r.rule("not-applied: a message whose element has no place in the tree, or is of another kind than the one there, changes nothing")
	r.updates(false)
	r.messages(false)
}

func (r *Run) c16() {
	r.rule("element: after an update, each listener of every element which was updated was called with that element and without an error, and no other listener with it")
	r.rule("contents: so after new contents were set")
	r.rule("message: after a message, each listener of the tree was called with the tree, and each listener of an element which was updated or gained a child was called with that element")
	r.rule("removed: a listener which was removed before is not called; the tree says which listeners it has")
	r.updates(true)
	r.newContents()
	r.messages(true)
}

// ---- listeners

var listenerT = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("user", "user"), "Listener", nil), types.NewStruct(nil, nil), nil))

// hears records the calls of listeners.
func (m *tm) hears(st *State) VPtr {
	log := m.writer(st)
	prev := m.e.onInvoke
	m.e.onInvoke = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if cc.Method != nil && cc.Method.Name() == "Receive" && len(cc.Args) == 3 {
			if i, ok := cc.Args[0].(VIface); ok && types.Identical(i.T, listenerT) {
				p, _ := st.ptr(i.V)
				m.emit(st, log, "call", int64(p.O), st.nv(cc.Args[1]))
				m.emit(st, log, "err", int64(p.O), st.nv(cc.Args[2]))
				return m.e.results(st, cc.Sig, cc.Name, false), true
			}
		}
		return prev(st, cc)
	}
	return log
}

func (m *tm) listener(st *State) VIface {
	p := VPtr{st.alloc(listenerT.Elem(), "listener"), ""}
	m.e.roots = append(m.e.roots, p)
	return VIface{listenerT, p}
}

type ears struct {
	log  VPtr
	on   map[string][2]VIface // by the element or tree
	what map[VPtr]string
	gone []VIface
	deaf []VIface
}

// listen registers listeners.
func (m *tm) listen(st *State, ea *ears, x Val, root bool) *State {
	t := "embertree.Element."
	if root {
		t = "embertree.RootElement."
	}
	a, b, gone := m.listener(st), m.listener(st), m.listener(st)
	for _, l := range []VIface{m.listener(st), m.listener(st)} { // the last one, and one of two
		st = m.choose("AddListener", m.do(st, t+"AddListener", x, l)).st
		st = m.choose("RemoveListener", m.do(st, t+"RemoveListener", x, l)).st
		st = m.choose("AddListener", m.do(st, t+"AddListener", x, a)).st
		ea.gone = append(ea.gone, l)
	}
	for _, l := range []VIface{a, gone, b, gone, a} {
		st = m.choose("AddListener", m.do(st, t+"AddListener", x, l)).st
	}
	st = m.choose("RemoveListener", m.do(st, t+"RemoveListener", x, gone)).st
	// one which was removed and is back
	st = m.choose("RemoveListener", m.do(st, t+"RemoveListener", x, b)).st
	st = m.choose("AddListener", m.do(st, t+"AddListener", x, b)).st
	ea.on[vkey(st.nv(x))] = [2]VIface{a, b}
	ea.gone = append(ea.gone, gone)
	return st
}

func (m *tm) listenAll(st *State, ea *ears, v *view) *State {
	st = m.listen(st, ea, v.el, false)
	for _, n := range sortedK(v.kids) {
		st = m.listenAll(st, ea, v.kids[n])
	}
	return st
}

// updatedBy lists the elements which an update updates.
func updatedBy(a, b *view) []*view {
	out := []*view{a}
	for _, n := range sortedK(b.kids) {
		if o := a.kids[n]; o != nil {
			out = append(out, updatedBy(o, b.kids[n])...)
		}
	}
	return out
}

// called looks at the calls of listeners.
func (m *tm) called(st *State, rule, what, pos string, ea *ears, due []Val) {
	r := m.r
	calls := m.toks(st, ea.log)
	at := map[string]string{}
	for k, ls := range ea.on {
		for _, l := range ls {
			at[fmt.Sprint(l.V.(VPtr).O)] = k
		}
	}
	heard := map[string]bool{}
	for i := 0; i+1 < len(calls); i += 2 {
		id := fmt.Sprint(calls[i].tag)
		k, ok := at[id]
		r.oblige("removed", what, pos, ok, "a listener which was removed is called")
		if !ok {
			continue
		}
		x := calls[i].v
		if f, isI := x.(VIface); isI {
			x = f.V
		}
		same := vkey(st.nv(x)) == k
		r.oblige(rule, what, pos, same, "a listener is called with something else than what it was added to")
		if same && st.nilness(calls[i+1].v) == 1 {
			heard[id] = true
		}
	}
	for _, d := range due {
		for _, l := range ea.on[vkey(st.nv(d))] {
			r.oblige(rule, what, pos, heard[fmt.Sprint(l.V.(VPtr).O)], "a listener of what was updated is not called")
		}
		r.oblige(rule, what, pos, len(ea.on[vkey(st.nv(d))]) == 2, "what was updated has no listeners")
	}
}

// ---- updates of one element

func (r *Run) update(what string, have, sent node, listen bool) {
	f := r.updateRules()
	if f == nil {
		return
	}
	pos := r.at(f)
	what = "an update of " + what
	r.paths(what, func(m *tm) {
		st, a := m.grow(m.e.start(), have, false)
		st, b := m.grow(st, sent, true)
		m.e.roots = append(m.e.roots, a, b)
		st, va := m.view(st, a)
		st, vb := m.view(st, b)
		var ea *ears
		if listen {
			ea = &ears{on: map[string][2]VIface{}}
			ea.log = m.hears(st)
			st = m.listenAll(st, ea, va)
		}
		same := have.path[len(have.path)-1] == sent.path[len(sent.path)-1] && (have.kind == sent.kind || otherForm[have.kind] == sent.kind && have.kind != 8 && sent.kind != 8)
		n := 0
		for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{a, b}, Sig: f.Signature}) {
			n++
			ok := x.st.nilness(x.res)
			if !same {
				if listen {
					m.called(x.st, "element", what, pos, ea, nil)
					continue
				}
				r.oblige("refused", what, pos, ok == 2, "it is not refused")
				s, now := m.view(x.st, a)
				d := m.differs(s, now, va)
				r.oblige("refused", what, pos, d == "", "it is refused, but something changed: "+d)
				continue
			}
			if listen {
				var due []Val
				for _, v := range updatedBy(va, vb) {
					due = append(due, v.el)
				}
				m.called(x.st, "element", what, pos, ea, due)
				continue
			}
			r.oblige("merge", what, pos, ok == 1, "it may be refused")
			s, now := m.view(x.st, a)
			d := m.differs(s, now, merge(va, vb))
			r.oblige("merge", what, pos, d == "", d)
		}
		r.oblige("merge", what, pos, n > 0, "it never ends")
	})
}

func (r *Run) updates(listen bool) {
	c := func(i int) string { return elementCtors[i].name }
	have := map[string]string{"nothing": "", "everything": "Ctsn"}
	sent := []string{"", "C", "t", "s", "n", "Ctsn"}
	kinds := []int{0, 1, 2, 3, 4, 5, 6, 7}
	for _, i := range kinds {
		for _, j := range []int{i, otherForm[i]} {
			for _, h := range []string{"nothing", "everything"} {
				for _, s := range sent {
					if i != 3 && i != 6 && strings.ContainsAny(s, "tsn") {
						continue
					}
					if listen && s != "" && s != "Ctsn" && s != "C" {
						continue
					}
					name := fmt.Sprintf("a %s with %s by a %s (%s)", c(i), h, c(j), s)
					r.update(name, nd(i, have[h], 7), nd(j, s, 7), listen)
				}
				name := fmt.Sprintf("a %s with %s by a %s with children", c(i), h, c(j))
				r.update(name, nd(i, have[h], 7), nd(j, "c", 7, sentKids(true, true)...), listen)
				for v := 0; v < 4; v++ {
					n := name + map[int]string{0: ", with children", 1: " without contents, with children"}[v&1] + map[int]string{0: "", 2: " without contents"}[v&2]
					r.update(n, nd(i, have[h], 7, knownKids(v&2 != 0)...), nd(j, "", 7, sentKids(true, v&1 == 0)...), listen)
				}
			}
		}
		r.update(fmt.Sprintf("a %s with children by another number", c(i)), nd(i, "ctsn", 7, knownKids(false)...), nd(i, "ctsn", 8, sentKids(true, true)...), listen)
		r.update(fmt.Sprintf("a %s with children by another number", c(i)), nd(i, "ctsn", 7, knownKids(false)...), nd(i, "ctsn", 7+65536, sentKids(true, true)...), listen)
		for _, j := range append(kinds, 8) {
			if j != i && j != otherForm[i] {
				r.update(fmt.Sprintf("a %s with children by a %s", c(i), c(j)), nd(i, "ctsn", 32, knownKids(false)...), nd(j, "ctsn", 32, sentKids(true, true)...), listen)
			}
		}
	}
	r.update("a command by a command", nd(8, "C", 32), nd(8, "C", 32), listen)
	r.update("a command by a node", nd(8, "C", 32), nd(1, "c", 32), listen)
	r.update("a deep branch", nd(1, "c", 7, nd(1, "c", 1, nd(1, "c", 2, nd(0, "c", 3)), nd(1, "c", 4))), nd(1, "", 7, nd(1, "", 1, nd(1, "", 2, nd(0, "c", 3), nd(0, "c", 5)))), listen)
	if !listen {
		r.refusedChild()
	}
}

// refusedChild: a child of another kind does not become that of the update.
func (r *Run) refusedChild() {
	f := r.updateRules()
	if f == nil {
		return
	}
	for _, k := range []int{0, 1, 2, 3} {
		for _, j := range []int{0, 1, 2, 3} {
			if j == k {
				continue
			}
			what := fmt.Sprintf("an update of a node whose child is a %s and not a %s", elementCtors[j].name, elementCtors[k].name)
			r.paths(what, func(m *tm) {
				st, a := m.grow(m.e.start(), nd(1, "c", 7, nd(k, "ctsn", 1, nd(0, "c", 2)), nd(0, "c", 3)), false)
				st, b := m.grow(st, nd(1, "", 7, nd(j, "ctsn", 1, nd(0, "c", 2), nd(0, "c", 4))), true)
				m.e.roots = append(m.e.roots, a, b)
				st, va := m.view(st, a)
				for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{a, b}, Sig: f.Signature}) {
					r.oblige("refused", what, r.at(f), x.st.nilness(x.res) == 2, "it is not refused")
					s, now := m.view(x.st, a)
					d := m.differs(s, now, va)
					r.oblige("refused", what, r.at(f), d == "", "the child is refused, but something changed: "+d)
				}
			})
		}
	}
}

// newContents: contents which are set.
func (r *Run) newContents() {
	f := r.need("embertree.Element.SetContents")
	if f == nil {
		return
	}
	for i, c := range elementCtors {
		for _, h := range []string{"", "c"} {
			what := fmt.Sprintf("new contents of a %s (%s)", c.name, h)
			r.paths(what, func(m *tm) {
				st, a := m.grow(m.e.start(), nd(i, h, 7, nd(0, "c", 1)), false)
				m.e.roots = append(m.e.roots, a)
				st, va := m.view(st, a)
				ea := &ears{on: map[string][2]VIface{}}
				ea.log = m.hears(st)
				st = m.listenAll(st, ea, va)
				st, x := m.contents(st, c.contents, ctorOf(c.contents), "SetInt", all, false, nil)
				for _, q := range m.doF(st, f, a, VIface{types.NewPointer(r.p.typ(c.contents)), x}) {
					m.called(q.st, "contents", what, r.at(f), ea, []Val{a})
				}
			})
		}
	}
}

// ---- messages

// knownTree is the tree which messages are applied to.
func knownTree(i int) []node {
	return []node{
		nd(1, "c", 10, nd(0, "c", 1), nd(1, "c", 2, nd(i, "ctsn", 5, nd(0, "c", 1)), nd(0, "c", 65538)), nd(i, "ctsn", 3)),
		nq(5, "c", []int64{11}, nd(i, "ctsn", 4)),
		nd(3, "ctsn", 12),
	}
}

func find(vs map[int64]*view, path []int64) *view {
	v := vs[path[0]]
	for _, n := range path[1:] {
		if v == nil {
			return nil
		}
		v = v.kids[n]
	}
	return v
}

// applied is the tree which is expected.
func applied(vs map[int64]*view, path []int64, b *view) map[int64]*view {
	out := map[int64]*view{}
	for n, v := range vs {
		out[n] = v
	}
	old := vs[path[0]]
	if len(path) == 1 {
		if old != nil {
			out[path[0]] = merge(old, b)
		} else {
			out[path[0]] = b.below(nil)
		}
		return out
	}
	c := *old
	c.kids = applied(old.kids, path[1:], b)
	if k := path[1]; len(path) == 2 && old.kids[k] == nil {
		c.kids[k] = b.below(old)
	}
	out[path[0]] = &c
	return out
}

func (r *Run) message(what string, have, sent []node, refused bool, bad []tok, listen bool) {
	f := r.need("embertree.RootElement.Decode")
	if f == nil {
		return
	}
	pos := r.at(f)
	what = "a message with " + what
	r.paths(what, func(m *tm) {
		st, root := m.one(m.e.start(), "embertree.NewTree")
		m.e.roots = append(m.e.roots, root)
		before := map[int64]*view{}
		for _, n := range have {
			var el Val
			st, el = m.grow(st, n, false)
			m.e.roots = append(m.e.roots, el)
			st = m.choose("AddElement", m.do(st, "embertree.RootElement.AddElement", root, el)).st
		}
		for _, n := range have {
			var el Val
			st, el = m.one(st, "embertree.RootElement.GetElementByNumber", root, intV(n.path[0]))
			st, before[n.path[0]] = m.view(st, el)
		}
		want := before
		var in [][]tok
		var due []Val
		for _, n := range sent {
			var el Val
			st, el = m.grow(st, n, true)
			m.e.roots = append(m.e.roots, el)
			var v *view
			st, v = m.view(st, el)
			var ts []tok
			st, ts = m.encoded(st, "embertree.Element.Encode", el)
			in = append(in, wrap(0xa0, ts))
			if !refused {
				if k := find(want, n.path); k != nil {
					for _, u := range updatedBy(k, v) {
						due = append(due, u.el)
					}
				} else if len(n.path) > 1 {
					due = append(due, find(want, n.path[:len(n.path)-1]).el)
				}
				want = applied(want, n.path, v)
			}
		}
		var old []Val
		for _, d := range due {
			if d != nil { // it was there before
				old = append(old, d)
			}
		}
		if bad != nil {
			in = append(in, bad)
		} else {
			old = append(old, root)
		}
		var ea *ears
		if listen {
			ea = &ears{on: map[string][2]VIface{}}
			ea.log = m.hears(st)
			st = m.listen(st, ea, root, true)
			for _, n := range sortedK(before) {
				st = m.listenAll(st, ea, before[n])
			}
			for l, want := range map[VIface]int64{ea.gone[0]: 0, ea.gone[2]: 0, ea.on[vkey(st.nv(root))][0]: 1, ea.on[vkey(st.nv(root))][1]: 1, ea.gone[1]: 0} {
				s, h := m.one(st.clone(), "embertree.RootElement.HasListner", root, l)
				k, ok := constOf(s.nv(h))
				r.oblige("removed", what, pos, ok && k == want, "the tree says of a listener that it has it, or that it has it not")
			}
		}
		rd := m.reader(st, withForm(wrap(0x60, wrap(0x6b, in...)), 0))
		n := 0
		for _, x := range m.e.callFn(st, &CallCtx{Fn: f, Name: f.String(), Args: []Val{root, rd}, Sig: f.Signature}) {
			n++
			ok := x.st.nilness(x.res)
			if listen {
				m.called(x.st, "message", what, pos, ea, old)
				continue
			}
			rule := "message"
			if refused {
				rule = "not-applied"
				r.oblige(rule, what, pos, ok == 2, "it is not refused")
			} else {
				r.oblige(rule, what, pos, ok == 1, "it may be refused")
			}
			s := x.st
			for _, k := range []int64{10, 11, 12, 13, 20, 65546} {
				var el Val
				s, el = m.one(s, "embertree.RootElement.GetElementByNumber", root, intV(k))
				d := ""
				if got := s.nilness(el) != 1; got != (want[k] != nil) {
					d = "it is there or missing unexpectedly"
				} else if got {
					var now *view
					s, now = m.view(s, el)
					d = m.differs(s, now, want[k])
				}
				r.oblige(rule, what, pos, d == "", fmt.Sprintf("element %d: %s", k, d))
			}
		}
		r.oblige("message", what, pos, n > 0, "it is never decoded")
	})
}

func (r *Run) messages(listen bool) {
	c := func(i int) string { return elementCtors[i].name }
	for _, i := range plainKinds {
		q := otherForm[i]
		for _, k := range []int{i, q} {
			for _, j := range []int{i, q} {
				for _, p := range []string{"", "Ctsn", "n"} {
					if p == "n" && i != 3 {
						continue
					}
					sent := nd(j, p, 13, sentKids(false, false)...)
					if p == "" {
						sent.kids = nil
					}
					r.message(fmt.Sprintf("a %s (%s) for a known %s", c(j), p, c(k)), append(knownTree(0), nd(k, "ctsn", 13, knownKids(false)...)), []node{sent}, false, nil, listen)
					if p != "n" {
						sent.kids = sentKids(false, true)
						r.message(fmt.Sprintf("a %s (%s) for a known %s with bare children", c(j), p, c(k)), append(knownTree(0), nd(k, "", 13, knownKids(true)...)), []node{sent}, false, nil, listen)
					}
				}
			}
			r.message("a new "+c(k), knownTree(0), []node{nd(k, "ctsn", 20, sentKids(false, false)...)}, false, nil, listen)
			r.message("a new "+c(k)+" of another number", knownTree(0), []node{nd(k, "ctsn", 65546, sentKids(false, false)...)}, false, nil, listen)
		}
		for _, path := range [][]int64{{10, 3}, {10, 2, 5}, {11, 4}} {
			for _, p := range []string{"", "Ctsn"} {
				r.message(fmt.Sprintf("a known %s with the path %v (%s)", c(q), path, p), knownTree(i), []node{nq(q, p, path, sentKids(false, false)...)}, false, nil, listen)
			}
		}
		for _, path := range [][]int64{{10, 9}, {10, 2, 9}, {10, 2, 5, 9}, {11, 9}, {12, 9}, {10, 2, 65541}} {
			r.message(fmt.Sprintf("a new %s with the path %v", c(q), path), knownTree(i), []node{nq(q, "ctsn", path, sentKids(false, false)...)}, false, nil, listen)
		}
		r.message(fmt.Sprintf("a new %s and one below it", c(q)), knownTree(i), []node{nq(5, "c", []int64{10, 9}), nq(q, "c", []int64{10, 9, 1})}, false, nil, listen)
		r.message(fmt.Sprintf("a new %s and one below it", c(i)), knownTree(i), []node{nd(i, "c", 20), nq(q, "c", []int64{20, 1})}, false, nil, listen)
		r.message(fmt.Sprintf("two new %ss in one place", c(q)), knownTree(i), []node{nq(q, "c", []int64{10, 8}), nq(q, "c", []int64{10, 9})}, false, nil, listen)
		r.message(fmt.Sprintf("a %s twice", c(q)), knownTree(i), []node{nq(q, "cts", []int64{10, 3}), nq(q, "n", []int64{10, 3})}, false, nil, listen)
		r.message(fmt.Sprintf("a new %s and a known one", c(q)), knownTree(i), []node{nq(q, "c", []int64{10, 2, 9}), nq(q, "c", []int64{10, 3}), nd(3, "n", 12)}, false, nil, listen)
		if listen {
			r.message(fmt.Sprintf("a new %s, a known one, and something unknown", c(q)), knownTree(i), []node{nq(q, "c", []int64{10, 2, 9}), nq(q, "c", []int64{10, 3})}, false, wrap(0xa0, []tok{{kind: "S", tag: 0x78}, {kind: "E"}}), listen)
			continue
		}
		for _, path := range [][]int64{{10, 9, 1}, {10, 2, 5, 9, 1}, {20, 1}, {20, 1, 1}, {65546, 1}, {10, 65538, 5}} {
			r.message(fmt.Sprintf("a %s with the path %v, whose parent is missing", c(q), path), knownTree(i), []node{nq(q, "ctsn", path, sentKids(false, false)...)}, true, nil, listen)
		}
		for _, j := range plainKinds {
			if j == i {
				continue
			}
			r.message(fmt.Sprintf("a %s in place of a %s", c(j), c(i)), append(knownTree(0), nd(i, "ctsn", 13, knownKids(false)...)), []node{nd(j, "ctsn", 13, sentKids(false, false)...)}, true, nil, listen)
			for _, path := range [][]int64{{10, 3}, {10, 2, 5}, {11, 4}} {
				r.message(fmt.Sprintf("a %s with the path %v in place of a %s", c(otherForm[j]), path, c(i)), knownTree(i), []node{nq(otherForm[j], "ctsn", path, sentKids(false, false)...)}, true, nil, listen)
			}
		}
	}
}
