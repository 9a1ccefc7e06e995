package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = check{run: (*Run).c25, expl: "Abstract interpretation of every query (getter, text rendering, path, frame list access, encoder, test) on unknown objects: no store, map update, append in place, copy, or draining call reaches anything which existed before the query was made. A query which moves a byte reader leaves it where it was. Encoders may change the writer which they are given, and nothing else."}
}

var queryPrefixes = []string{"Get", "Is", "Has", "Encode", "ToString", "Len", "Size", "Offset", "TopOffset", "Peek", "Validate", "Path2String", "ValueType2String", "Application", "Context", "Universal"}

// queries are the exported functions and methods which only tell something.
func (r *Run) queries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Blocks == nil || !isExported(f) {
			continue
		}
		if rec := f.Signature.Recv(); rec != nil {
			s := rec.Type().String()
			if strings.HasSuffix(s, ".S101Client") || strings.HasSuffix(s, ".S101Decoder") {
				continue // these act
			}
		}
		takes := false
		ps := f.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if s := ps.At(i).Type().String(); s == "*bytes.Reader" || strings.HasSuffix(s, "asn1.ASNReader") {
				takes = true
			}
		}
		if takes {
			continue // it reads what it is given
		}
		for _, p := range queryPrefixes {
			if rest := strings.TrimPrefix(f.Name(), p); rest != f.Name() && (rest == "" || rest[0] < 'a' || rest[0] > 'z') {
				out = append(out, f)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return r.p.short(out[i]) < r.p.short(out[j]) })
	return out
}

var queryAnchors = append([]string{"embertree.Element.GetPath", "embertree.Element.ToString", "embertree.RootElement.ToString", "embertree.RootElement.GetElementByPath", "embertree.RootElement.HasListner", "embertree.Element.GetConnections", "embertree.Element.GetTargets", "embertree.ParameterContents.ToString", "embertree.MatrixContent.ToString", "embertree.NodeContents.ToString", "embertree.FunctionContents.ToString", "embertree.ContentParameter.ToString", "embertree.ContentParameter.GetBuffer", "socket.S101FrameList.GetBytesAt", "socket.S101FrameList.GetAt", "socket.S101FrameList.Size", "socket.EncodeMessage", "asn1.ASNReader.Peek", "asn1.ASNReader.Len", "asn1.ASNWriter.Len"}, encodeAnchors...)

// changes watches for changes of what existed before.
type changes struct {
	r      *Run
	e      *Engine
	n0     int
	own    map[string]bool // what calls outside of the module returned
	report func(st *State, in ssa.Instruction, what string)
}

func (c *changes) old(st *State, id ObjID) bool {
	return c.oldObj(id, map[SymID]bool{})
}

func (c *changes) oldObj(id ObjID, seen map[SymID]bool) bool {
	key, lazy := c.e.lazyOf[id]
	if !lazy {
		return int(id) <= c.n0
	}
	var s SymID
	if n, _ := fmt.Sscanf(key, "*v%d", &s); n == 1 && key == fmt.Sprintf("*v%d", s) {
		return c.oldSym(s, seen)
	}
	return true
}

func (c *changes) oldSym(s SymID, seen map[SymID]bool) bool {
	if seen[s] || c.own[fmt.Sprintf("*v%d", s)] {
		return false
	}
	seen[s] = true
	m := c.e.syms[s]
	if m.Name != "join" {
		return true
	}
	for _, x := range m.From {
		if c.oldSym(x, seen) {
			return true
		}
	}
	for _, o := range m.Objs {
		if c.oldObj(o, seen) {
			return true
		}
	}
	return false
}

func (c *changes) desc(st *State, p VPtr) string {
	o := st.objs[p.O]
	t := types.TypeString(o.T, func(p *types.Package) string { return p.Name() })
	if p.P != "" {
		return strings.TrimPrefix(p.P, ".") + " of " + t
	}
	return t
}

func (c *changes) watch() {
	e := c.e
	e.onStore = func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type) {
		if c.old(st, p.O) && (isAggT(t) || !sameVal(st, v, st.load(p, t))) {
			c.report(st, in, "it stores into "+c.desc(st, p))
		}
	}
	e.onMap = func(st *State, in ssa.Instruction, m Val, k, v Val, op string) {
		if op != "set" && op != "delete" {
			return
		}
		if p, ok := st.ptr(m); ok && c.old(st, p.O) {
			c.report(st, in, "it changes the entries of "+c.desc(st, p))
		}
	}
	e.onCopy = func(st *State, in ssa.Instruction, dst, src Val, n Lin) {
		if s, ok := st.slice(dst); ok && c.old(st, s.O) && st.upper(st.norm(n)) > 0 {
			c.report(st, in, "it copies into "+c.desc(st, VPtr{s.O, s.P}))
		}
	}
	e.onAppend = func(st *State, in ssa.Instruction, dst, src Val) {
		s, ok := st.slice(dst)
		if !ok || !c.old(st, s.O) {
			return
		}
		l := st.lenOf(src)
		if l.isC() && l.C == 0 {
			return
		}
		if x, ok := in.(*ssa.Call); ok && len(x.Call.Args) > 0 {
			if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.Max != nil && st.upper(st.norm(s.Cap.sub(s.Len))) <= 0 {
				return // its room was cut off
			}
		}
		c.report(st, in, "it appends in place to "+c.desc(st, VPtr{s.O, s.P}))
	}
	e.onBuf = func(st *State, p VPtr, old, add []Seg) {
		if c.old(st, p.O) && len(add) > 0 {
			c.report(st, nil, "it writes to "+c.desc(st, p))
		}
	}
	e.onAfter = func(st *State, cc *CallCtx, res Val) {
		if cc.Fn != nil && cc.Fn.Blocks != nil && cc.Fn.Pkg != nil && e.isRepoPkg(cc.Fn.Pkg.Pkg.Path()) {
			return
		}
		c.owns(st, res)
	}
}

func (c *changes) owns(st *State, res Val) {
	switch x := res.(type) {
	case VTuple:
		for _, y := range x {
			c.owns(st, y)
		}
	case VSym:
		c.own[st.symKey(x.S)] = true
	}
}

// drains: methods of the standard library which change what they are called on.
var drains = map[string]bool{"Read": true, "ReadByte": true, "ReadBytes": true, "ReadString": true, "ReadRune": true, "Next": true, "Reset": true, "Truncate": true, "WriteTo": true, "ReadFrom": true, "Write": true, "WriteByte": true, "WriteString": true, "WriteRune": true, "Seek": true, "PushBack": true, "PushFront": true, "Remove": true, "InsertBefore": true, "InsertAfter": true, "MoveToFront": true, "MoveToBack": true, "Init": true, "Store": true, "Delete": true, "Add": true, "Swap": true, "Stop": true}

func (c *changes) call(st *State, cc *CallCtx) {
	if len(cc.Args) == 0 || cc.Fn != nil && cc.Fn.Blocks != nil && cc.Fn.Pkg != nil && c.e.isRepoPkg(cc.Fn.Pkg.Pkg.Path()) {
		return
	}
	name := cc.Name
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || strings.HasPrefix(name, "encoding/binary.Put") {
		for _, a := range cc.Args[:1] {
			if i, ok := st.nv(a).(VIface); ok {
				a = i.V
			}
			if s, ok := st.slice(a); ok && c.old(st, s.O) {
				c.report(st, cc.Site, name+" reorders "+c.desc(st, VPtr{s.O, s.P}))
			}
		}
		return
	}
	if !strings.HasPrefix(name, "(*") || strings.HasPrefix(name, "(*bytes.Reader)") {
		return
	}
	m := name[strings.LastIndex(name, ".")+1:]
	if !drains[m] || strings.HasPrefix(name, "(*sync.") {
		return
	}
	if p, ok := st.ptr(cc.Args[0]); ok && c.old(st, p.O) {
		c.report(st, cc.Site, m+" changes "+c.desc(st, p))
	}
}

func (r *Run) c25() {
	r.rule("no-change: a query stores into, adds to, removes from or drains nothing which existed before it was made")
	r.rule("position: a query leaves each byte reader where it was")
	for _, a := range queryAnchors {
		r.need(a)
	}
	for _, f := range r.queries() {
		r.query(f)
	}
}

func (r *Run) query(f *ssa.Function) {
	name := r.p.short(f)
	e := r.engine()
	e.forkIndex = 0
	bad := false
	c := &changes{r: r, e: e, own: map[string]bool{}}
	c.report = func(st *State, in ssa.Instruction, what string) {
		bad = true
		pos := r.at(f)
		if in != nil {
			pos = r.p.pos(in)
		}
		r.oblige("no-change", e.exported(), pos, false, fmt.Sprintf("%s, which existed before; calls %s", what, e.stackText()))
	}
	m := &anyWriter{r: r, e: e, entry: f, bad: func(*State, *CallCtx, string) {}}
	m.hook()
	call, invoke := e.onCall, e.onInvoke
	asn := f.Pkg == r.p.pkg("asn1")
	e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
		c.call(st, cc)
		if asn {
			return nil, false
		}
		return call(st, cc)
	}
	e.onInvoke = func(st *State, cc *CallCtx) ([]Exit, bool) { return invoke(st, cc) }
	c.watch()
	w := &progress{r: r, e: e}
	if r.guard(name, e, func() {
		st := e.start()
		args := e.freshArgs(f)
		for i, p := range f.Params {
			if strings.HasSuffix(p.Type().String(), "embertree.Listener") && strings.HasPrefix(f.Name(), "Get") {
				args[i] = VNil{} // a listener is to be added
			}
		}
		was := w.touch(st, f, args)
		c.n0 = e.nobj
		for _, x := range e.call(st, f, args) {
			for k, l := range w.inputs(x.st) {
				if o, ok := was[k]; ok && !strings.HasSuffix(k, "buffer") {
					d := x.st.norm(l.sub(o))
					r.oblige("position", name, r.at(f), d.isC() && d.C == 0, "it may leave a byte reader at another place")
				}
			}
		}
	}) && !bad {
		r.oblige("no-change", name, r.at(f), true, "")
	}
}
