package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = check{run: (*Run).c23, expl: "Lockset analysis by abstract interpretation: every exported method of the client, of elements and of trees, every goroutine and timer function they start and every listener of the client is analysed with an unknown receiver; at each access of a shared field the set of locks held on that path is collected, and each field needs one lock common to all its accesses. Locks are followed through calls and deferred calls."}
}

// lockAccess is an access of a shared field.
type lockAccess struct {
	pos, fn string
	write   bool
	locks   map[string]bool
}

type lockWatch struct {
	r      *Run
	e      *Engine
	shared map[string]bool // Type.field
	acc    map[string][]lockAccess
	owner  map[string]VPtr // reference held by a shared field -> where
	fkey   map[string]string
	order  map[string]map[string]string
	roots  []loopCall
	known  map[string]bool
	rel    map[*ssa.Function]bool
	cur    *ssa.Function
	nlock  int
	calls  int
	fresh0 ObjID
}

// fieldAt splits a pointer to a field: the object, the path of the struct and Type.field.
func (w *lockWatch) fieldAt(st *State, p VPtr) (base VPtr, key string, ok bool) {
	o := st.objs[p.O]
	i := strings.LastIndex(p.P, ".")
	if o == nil || i < 0 || strings.HasSuffix(p.P, "]") {
		return
	}
	t := o.T
	if i > 0 {
		t = w.e.pathType(t, p.P[:i])
	}
	n, isN := types.Unalias(t).(*types.Named)
	if t == nil || !isN || n.Obj().Pkg() == nil || !w.e.isRepoPkg(n.Obj().Pkg().Path()) {
		return
	}
	return VPtr{p.O, p.P[:i]}, n.Obj().Pkg().Name() + "." + n.Obj().Name() + p.P[i:], true
}

func heldOf(st *State) VTuple {
	t, _ := st.g["held"].(VTuple)
	return t
}

// lockName names a lock as seen from an object.
func (w *lockWatch) lockName(st *State, l VPtr, base VPtr) string {
	read := ""
	p := l
	if strings.HasSuffix(p.P, "#r") {
		p.P, read = strings.TrimSuffix(p.P, "#r"), "#r"
	}
	b, key, ok := w.fieldAt(st, p)
	switch {
	case !ok:
		return fmt.Sprintf("%s%s%s", vkey(VPtr{p.O, ""}), p.P, read)
	case b == base:
		return key + " of the object" + read
	}
	return key + read
}

func (w *lockWatch) access(st *State, in ssa.Instruction, base VPtr, key string, write bool) {
	if o := st.objs[base.O]; o == nil || w.private(st, base) {
		return
	}
	locks := map[string]bool{}
	for _, l := range heldOf(st) {
		locks[w.lockName(st, l.(VPtr), base)] = true
	}
	pos := w.r.p.pos(in)
	fn := w.e.exported()
	for _, a := range w.acc[key] {
		if a.pos == pos && a.fn == fn && a.write == write && fmt.Sprint(a.locks) == fmt.Sprint(locks) {
			return
		}
	}
	w.acc[key] = append(w.acc[key], lockAccess{pos, fn, write, locks})
}

// private: the object was made by the function analysed and nobody else knows it yet.
func (w *lockWatch) private(st *State, p VPtr) bool {
	o := st.objs[p.O]
	if o == nil || o.Lazy || p.O < w.fresh0 {
		return false
	}
	_, pub := st.g[fmt.Sprintf("pub:%d", p.O)]
	return !pub
}

func (w *lockWatch) publish(st *State, v Val, depth int) {
	if depth > 3 {
		return
	}
	switch x := st.nv(v).(type) {
	case VPtr:
		if x.O >= w.fresh0 {
			if o := st.objs[x.O]; o != nil && !o.Lazy {
				k := fmt.Sprintf("pub:%d", x.O)
				if st.g[k] == nil {
					st.g[k] = x
				}
			}
		}
	case VIface:
		w.publish(st, x.V, depth+1)
	case VFunc:
		for _, b := range x.B {
			w.publish(st, b, depth+1)
			// a variable captured by a closure
			if p, ok := b.(VPtr); ok {
				if o := st.objs[p.O]; o != nil {
					for _, c := range o.Cells {
						if _, isP := c.(VPtr); isP {
							w.publish(st, c, depth+1)
						}
					}
				}
			}
		}
	}
}

func (w *lockWatch) lockAt(v Val, st *State) (VPtr, bool) {
	p, ok := st.ptr(v)
	return p, ok
}

func (w *lockWatch) hookCall(st *State, cc *CallCtx) ([]Exit, bool) {
	e := w.e
	name := cc.Name
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") || strings.HasPrefix(name, "(sync.Locker).") {
		p, ok := w.lockAt(cc.Args[0], st)
		if !ok {
			return ret(st, nil), true
		}
		m := name[strings.LastIndex(name, ".")+1:]
		held := heldOf(st)
		key := w.lockName(st, p, VPtr{-1, ""})
		pos := w.r.p.pos(cc.Site)
		w.nlock++
		switch m {
		case "Lock", "RLock":
			for _, h := range held {
				hp := h.(VPtr)
				hp.P = strings.TrimSuffix(hp.P, "#r")
				w.r.oblige("relock", w.e.exported(), pos, hp != p, "the lock "+key+" is acquired while it is held")
				hk := w.lockName(st, hp, VPtr{-1, ""})
				if w.order[hk] == nil {
					w.order[hk] = map[string]string{}
				}
				if hp != p && w.order[hk][key] == "" {
					w.order[hk][key] = pos
				}
			}
			if m == "RLock" {
				p.P += "#r"
			}
			for _, h := range held {
				if h.(VPtr) == p {
					return ret(st, nil), true // reported above
				}
			}
			w.r.oblige("release", w.e.exported(), pos, len(held) < 4, "the lock "+key+" is acquired while four others are held: locks are not released")
			if len(held) >= 4 {
				return ret(st, nil), true
			}
			n := append(append(VTuple{}, held...), p)
			st.g["held"] = n
			return ret(st, nil), true
		case "Unlock", "RUnlock":
			if m == "RUnlock" {
				p.P += "#r"
			}
			var n VTuple
			found := false
			for _, h := range held {
				if h.(VPtr) == p && !found {
					found = true
					continue
				}
				n = append(n, h)
			}
			w.r.oblige("release", w.e.exported(), pos, found, "the lock "+key+" is released though it is not held")
			if len(n) == 0 {
				delete(st.g, "held")
			} else {
				st.g["held"] = n
			}
			return ret(st, nil), true
		}
		return nil, false
	}
	for _, a := range cc.Args {
		if k := vkey(st.nv(a)); w.fkey[k] != "" && (cc.Fn == nil || cc.Fn.Pkg == nil || !e.isRepoPkg(cc.Fn.Pkg.Pkg.Path())) {
			m := name[strings.LastIndex(name, ".")+1:]
			ro := m == "Len" || m == "Front" || m == "Back" || m == "Stop" || m == "Reset"
			w.access(st, cc.Site, w.owner[k], w.fkey[k], !ro)
		}
	}
	if name == "time.AfterFunc" {
		w.publish(st, cc.Args[1], 0)
		if f, ok := cc.Args[1].(VFunc); ok {
			w.root(st, f, nil, cc.Site)
		}
		return nil, false
	}
	if cc.Fn == nil {
		// a function value which is not known is the user's
		w.userCall(st, cc)
		return ret(st, w.zeroRes(st, cc)), true
	}
	if cc.Fn.Pkg != nil {
		switch n := cc.Fn.Pkg.Pkg.Name(); {
		case n == "asn1" && e.isRepoPkg(cc.Fn.Pkg.Pkg.Path()), n == "errors" && e.isRepoPkg(cc.Fn.Pkg.Pkg.Path()):
			ex := e.results(st, cc.Sig, name, true)
			for _, x := range ex {
				w.results(st, cc, x.res)
			}
			return ex, true
		}
	}
	if e.isRepoFn(cc.Fn) && !w.rel[cc.Fn] && cc.Fn.Synthetic == "" {
		ex := e.results(st, cc.Sig, name, true)
		for _, x := range ex {
			w.results(st, cc, x.res)
		}
		return ex, true
	}
	return nil, false
}

// results: the pointers which a function returns without an error are not nil.
func (w *lockWatch) results(st *State, cc *CallCtx, res Val) {
	t, ok := res.(VTuple)
	if !ok {
		t = VTuple{res}
	}
	n := cc.Sig.Results().Len()
	fails := n > 0 && w.r.p.isErr(cc.Sig.Results().At(n-1).Type())
	for i, v := range t {
		if p, ok := v.(VSym); ok && i < n && isPtr(cc.Sig.Results().At(i).Type()) && (fails || w.r.p.callNeverNil(ssa.CallCommon{Value: cc.Fn}, i, map[ssa.Value]bool{})) {
			w.e.nonNil[p.S] = true
		}
	}
}

func (e *Engine) isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && e.isRepoPkg(f.Pkg.Pkg.Path())
}

// relevant finds the functions which may use a lock, a shared field or a listener, by themselves or by what they call.
func (w *lockWatch) relevant(lt types.Type) {
	w.rel = map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if !w.rel[f] {
			w.rel[f] = true
			work = append(work, f)
		}
	}
	iface := map[string][]*ssa.Function{}
	for _, f := range w.r.p.funcs {
		if f.Signature.Recv() != nil {
			iface[f.Name()] = append(iface[f.Name()], f)
		}
	}
	for _, f := range w.r.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					mark(f)
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				case *ssa.FieldAddr:
					if n, ok := types.Unalias(x.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
						if w.shared[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+n.Underlying().(*types.Struct).Field(x.Field).Name()] {
							mark(f)
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				switch g := com.StaticCallee(); {
				case com.IsInvoke():
					n, ok := types.Unalias(com.Value.Type()).(*types.Named)
					if types.Identical(com.Value.Type(), lt) {
						mark(f)
					} else if ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), w.r.p.modPath()) && n.Obj().Name() != "Logger" {
						for _, h := range iface[com.Method.Name()] {
							callers[h] = append(callers[h], f)
						}
					}
				case g == nil:
					if _, ok := com.Value.(*ssa.Builtin); !ok {
						mark(f)
					}
				case g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync" || g.Pkg.Pkg.Path() == "time" && g.Name() == "AfterFunc"):
					mark(f)
				default:
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range callers[f] {
			mark(c)
		}
	}
}

func (w *lockWatch) zeroRes(st *State, cc *CallCtx) Val {
	ex := w.e.results(st, cc.Sig, cc.Name, false)
	return ex[0].res
}

func (w *lockWatch) userCall(st *State, cc *CallCtx) {
	w.calls++
	held := heldOf(st)
	name := ""
	if len(held) > 0 {
		name = w.lockName(st, held[0].(VPtr), VPtr{-1, ""})
	}
	w.r.oblige("user", w.e.exported(), w.r.p.pos(cc.Site), len(held) == 0, "a listener or handler is called while the lock "+name+" is held")
}

func (w *lockWatch) hookInvoke(st *State, cc *CallCtx) ([]Exit, bool) {
	lt := w.r.p.typ("embertree.Listener")
	if lt != nil && types.Identical(cc.Recv, lt) {
		w.userCall(st, cc)
		return w.e.results(st, cc.Sig, cc.Name, false), true
	}
	if n, ok := types.Unalias(cc.Recv).(*types.Named); ok && n.Obj().Name() == "Logger" {
		return w.e.results(st, cc.Sig, cc.Name, false), true
	}
	if len(cc.Args) > 1 {
		for _, a := range cc.Args[1:] {
			w.publish(st, a, 0)
		}
	}
	return nil, false
}

func (w *lockWatch) root(st *State, f VFunc, args []Val, in ssa.Instruction) {
	k := f.F.String()
	for _, a := range append(append([]Val{}, args...), f.B...) {
		k += " " + vkey(a)
	}
	k = f.F.String()
	if w.known[k] {
		return
	}
	w.known[k] = true
	s := st.clone()
	s.g = map[string]Val{}
	for _, b := range append(append([]Val{}, args...), f.B...) {
		w.publish(s, b, 0)
	}
	for k, v := range st.g {
		if strings.HasPrefix(k, "pub:") {
			s.g[k] = v
		}
	}
	w.roots = append(w.roots, loopCall{s, nil, f, args})
}

func (w *lockWatch) install() {
	e := w.e
	e.onCall = w.hookCall
	e.onInvoke = w.hookInvoke
	e.onGo = func(st *State, in *ssa.Go, fn Val, args []Val) {
		for _, a := range args {
			w.publish(st, a, 0)
		}
		w.publish(st, fn, 0)
		if f, ok := fn.(VFunc); ok {
			w.root(st, f, args, in)
		}
	}
	e.onLoaded = func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type) {
		base, key, ok := w.fieldAt(st, p)
		if !ok || !w.shared[key] {
			return
		}
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			k := vkey(st.nv(v))
			w.owner[k], w.fkey[k] = base, key
		}
		w.access(st, in, base, key, false)
	}
	e.onStore = func(st *State, in ssa.Instruction, p VPtr, v Val, t types.Type) {
		if base, key, ok := w.fieldAt(st, p); ok && w.shared[key] {
			w.access(st, in, base, key, true)
		}
		if o := st.objs[p.O]; o != nil && !w.private(st, p) {
			w.publish(st, v, 0)
		}
	}
	e.onMap = func(st *State, in ssa.Instruction, m, k, v Val, op string) {
		if v != nil {
			w.publish(st, v, 0)
		}
		key := vkey(st.nv(m))
		if w.fkey[key] != "" {
			w.access(st, in, w.owner[key], w.fkey[key], op == "set" || op == "delete")
		}
	}
}

// mentions: a type is, or is made of, values of another one.
func collectionOf(t, el types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Map:
		return types.Identical(x.Elem(), el) || types.Identical(x.Key(), el)
	case *types.Slice:
		return types.Identical(x.Elem(), el)
	}
	return false
}

func (r *Run) c23() {
	r.rule("lockset: all accesses of a shared field (the client's connection, the packet queue, the listeners of elements and trees, the changing fields of the client's own listeners), except those of a new object which nobody else knows, have a lock in common, held for writing where the field is written")
	r.rule("release: every lock which is acquired is released exactly once before the call ends, on every path")
	r.rule("user: no listener or handler is called while a lock is held")
	r.rule("relock: no lock is acquired by a goroutine which holds it, and no two locks are acquired in both orders")
	r.assumes("sync.Mutex and the standard library behave as documented")
	r.assumes("loggers do not call back into the client or the tree")
	lt := r.p.typ("embertree.Listener")
	if lt == nil {
		r.fail("anchor", "embertree.Listener", "", "the type does not exist")
		return
	}
	iface := lt.Underlying().(*types.Interface)
	w := &lockWatch{r: r, shared: map[string]bool{}, acc: map[string][]lockAccess{}, order: map[string]map[string]string{}, known: map[string]bool{}}
	kinds := map[string]string{}
	var entries []*ssa.Function
	isListener := map[string]bool{}
	for _, sp := range r.p.spkgs {
		if n := sp.Pkg.Name(); n != "socket" && n != "embertree" {
			continue
		}
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			tn := sp.Pkg.Name() + "." + tm.Name()
			s, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			lis := sp.Pkg.Name() == "socket" && types.Implements(types.NewPointer(tm.Type()), iface)
			isListener[tn] = lis
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				key := tn + "." + f.Name()
				k := ""
				switch {
				case namedIs(f.Type(), "net", "Conn"):
					k = "connection"
				case isListOf(f.Type()):
					k = "queue"
				case collectionOf(f.Type(), lt):
					k = "listeners"
				case lis && !syncType(f.Type()):
					k = "bookkeeping"
				}
				if k != "" {
					w.shared[key] = true
					kinds[k] = key
				}
			}
			if tn == "socket.S101Client" || tn == "embertree.Element" || tn == "embertree.RootElement" || lis {
				for _, f := range r.p.methodsOf(tn) {
					if isExported(f) {
						entries = append(entries, f)
					}
				}
			}
		}
	}
	for _, k := range []string{"connection", "queue", "listeners"} {
		r.oblige("shared", k, "", kinds[k] != "", "no field holds the "+k)
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].String() < entries[j].String() })
	w.relevant(lt)
	r.count("functions_with_locks", len(w.rel))
	for _, f := range entries {
		if !w.rel[f] {
			continue
		}
		r.lockEntry(w, f)
	}
	// the common lock of each field
	var keys []string
	for k := range w.acc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		writes := 0
		cnt := map[string]int{}
		for _, a := range w.acc[k] {
			if a.write {
				writes++
			}
			for l := range a.locks {
				if !strings.HasSuffix(l, "#r") {
					cnt[l]++
				} else if !a.write {
					cnt[strings.TrimSuffix(l, "#r")]++
				}
			}
		}
		r.count("shared_accesses", len(w.acc[k]))
		if writes == 0 {
			r.oblige("lockset", k, "", true, "")
			continue
		}
		best := ""
		for l := range cnt {
			if best == "" || cnt[l] > cnt[best] || cnt[l] == cnt[best] && l < best {
				best = l
			}
		}
		ok, pos, msg := true, "", ""
		for _, a := range w.acc[k] {
			if best == "" || !a.locks[best] && (a.write || !a.locks[best+"#r"]) {
				ok, pos = false, a.pos
				msg = fmt.Sprintf("%s is accessed in %s", k, a.fn)
				if best != "" {
					msg += " without the lock " + best + " which protects it elsewhere"
				} else {
					msg += " without a lock"
				}
				break
			}
		}
		r.oblige("lockset", k, pos, ok, msg)
	}
	// lock order
	var lk []string
	for k := range w.order {
		lk = append(lk, k)
	}
	sort.Strings(lk)
	for _, a := range lk {
		for b, pos := range w.order[a] {
			r.oblige("relock", "order of "+a+" and "+b, pos, a != b && !w.reaches(b, a, map[string]bool{}), "the locks "+a+" and "+b+" are acquired in both orders")
		}
	}
	r.count("lock_operations", w.nlock)
	r.count("listener_calls", w.calls)
	r.count("entries", len(entries))
	r.oblige("user", "listeners", "", w.calls > 0 && w.nlock > 0, "no listener is called and no lock used")
}

func (w *lockWatch) reaches(a, b string, seen map[string]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for k := range w.order[a] {
		if w.reaches(k, b, seen) {
			return true
		}
	}
	return false
}

func isListOf(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return namedIs(t, "container/list", "List")
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

func (r *Run) lockEntry(w *lockWatch, f *ssa.Function) {
	name := r.p.short(f)
	e := r.engine()
	w.e = e
	w.owner, w.fkey = map[string]VPtr{}, map[string]string{}
	w.roots = nil
	w.install()
	r.step = 2000000
	if len(r.finds) > 0 {
		r.step = 200000
	}
	r.guard(name, e, func() {
		st := e.start()
		args := e.freshArgs(f)
		w.fresh0 = ObjID(e.nobj + 1)
		done := func(ex []Exit, name string) {
			for _, x := range ex {
				held := heldOf(x.st)
				l := ""
				if len(held) > 0 {
					l = w.lockName(x.st, held[0].(VPtr), VPtr{-1, ""})
				}
				r.oblige("release", name, r.at(f), len(held) == 0, "the lock "+l+" is not released")
			}
		}
		done(e.call(st, f, args), name)
		for i := 0; i < len(w.roots) && i < 20; i++ {
			c := w.roots[i]
			fn := c.fn.(VFunc)
			e.roots = append(e.roots, c.args...)
			done(e.callFunc(c.st, c.in, fn, c.args), name)
		}
	})
}
