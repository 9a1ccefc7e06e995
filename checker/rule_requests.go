package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = check{run: (*Run).c24, expl: "Typestate of requests by abstract interpretation: a client in any state issues a directory or tree request; listener registrations, timers, goroutines and locks are tracked on every path, and every order (with at most one late or repeated event, for trees of up to two elements) of the events that can follow (answer, failing answer, expiry, the start of a part, each also in the middle of the request where no lock excludes it) is applied."}
}

// reqs watches the listeners, timers and goroutines of the requests of a client.
type reqs struct {
	r      *Run
	c      *client
	e      *Engine
	rule   string
	name   string
	cb     Val // the listener of the user
	errAns Val // the error of a failing answer
	timers map[string]VFunc
	gos    map[string]loopCall
	ngo    int
	inter  bool // events may happen in the middle of a request
	nodes  map[string]Val
	seen   map[string]bool
	states int
	kinds  map[string]bool
}

func (w *reqs) fail(pos, msg string) { w.r.fail(w.rule, w.name, pos, msg) }

func gkeys(st *State, pre string) []string {
	var out []string
	for k := range st.g {
		if strings.HasPrefix(k, pre) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// user: calls of the listener of the user.
func (w *reqs) invoke(st *State, cc *CallCtx) ([]Exit, bool) {
	lt := w.r.p.typ("embertree.Listener")
	if types.Identical(cc.Recv, lt) && sameVal(st, cc.Args[0], w.cb) {
		pos := w.r.p.pos(cc.Site)
		if len(gkeys(st, "lk:")) > 0 {
			w.fail(pos, "the listener of a request is called while a lock is held")
		}
		err := st.nv(cc.Args[2])
		switch {
		case sameVal(st, err, w.errAns) || st.nilness(err) == 1:
			gadd(st, "responses")
		default:
			gadd(st, "timeouts")
			if gint(st, "answered") > 0 && w.rule == "timeout" {
				w.fail(pos, "a timeout is reported after the response")
			}
			if gint(st, "timeouts") > 1 && w.rule == "timeout" {
				w.fail(pos, "a timeout is reported twice")
			}
		}
		gadd(st, "completions")
		return w.e.results(st, cc.Sig, cc.Name, false), true
	}
	return nil, false
}

func (w *reqs) call(st *State, cc *CallCtx) ([]Exit, bool) {
	e := w.e
	name := cc.Name
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		k := "lk:" + vkey(st.nv(cc.Args[0]))
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Lock", "RLock":
			if st.g[k] != nil {
				return nil, true // waits
			}
			var out []Exit
			for _, s := range w.interfere(st) {
				if s.g[k] == nil {
					s.g[k] = intV(1)
					out = append(out, Exit{s, nil})
				}
			}
			return out, true
		case "Unlock", "RUnlock":
			delete(st.g, k)
			var out []Exit
			for _, s := range w.interfere(st) {
				out = append(out, Exit{s, nil})
			}
			return out, true
		}
		return nil, false
	}
	switch name {
	case "time.AfterFunc":
		f, ok := st.nv(cc.Args[1]).(VFunc)
		if !ok {
			return nil, false
		}
		v := e.fresh(cc.resT(), "timer")
		e.nonNil[v.(VSym).S] = true
		e.roots = append(e.roots, v, f)
		e.roots = append(e.roots, f.B...)
		w.timers[vkey(v)] = f
		st.g["tm:"+vkey(v)] = VStr{"armed"}
		var out []Exit
		for _, s := range w.interfere(st) {
			out = append(out, Exit{s, v})
		}
		return out, true
	case "(*time.Timer).Stop":
		if !e.checkNil(st, cc.Site, cc.Args[0], "the timer") {
			return nil, true
		}
		k := "tm:" + vkey(st.nv(cc.Args[0]))
		switch gstr(st, k) {
		case "armed":
			// it may have expired just before
			if w.rule == "completion" && gint(st, "odd") > 0 {
				st.g[k] = VStr{"stopped"}
				return ret(st, boolV(true)), true
			}
			n := st.clone()
			n.g[k] = VStr{"late"}
			gadd(n, "odd")
			st.g[k] = VStr{"stopped"}
			return []Exit{{st, boolV(true)}, {n, boolV(false)}}, true
		case "":
			return nil, false
		}
		return ret(st, boolV(false)), true
	case "(*time.Timer).Reset":
		if !e.checkNil(st, cc.Site, cc.Args[0], "the timer") {
			return nil, true
		}
		k := "tm:" + vkey(st.nv(cc.Args[0]))
		was := gstr(st, k) == "armed"
		st.g[k] = VStr{"armed"}
		return ret(st, boolV(was)), true
	}
	if cc.Fn == nil {
		return nil, false
	}
	switch n := e.short(cc.Fn); n {
	case "embertree.Element.AddListener", "embertree.RootElement.AddListener", "embertree.Element.RemoveListener", "embertree.RootElement.RemoveListener":
		if !e.checkNil(st, cc.Site, cc.Args[0], "the node") {
			return nil, true
		}
		node, l := st.nv(cc.Args[0]), st.nv(cc.Args[1])
		k := "reg:" + vkey(node) + "|" + vkey(l)
		w.nodes[vkey(node)] = node
		out := w.interfere(st)
		for _, s := range out {
			if strings.HasSuffix(n, ".AddListener") {
				s.g[k] = VTuple{node, l}
			} else {
				delete(s.g, k)
			}
		}
		var ex []Exit
		for _, s := range out {
			ex = append(ex, Exit{s, nil})
		}
		return ex, true
	case "embertree.Path2String", "embertree.Element.ToString", "embertree.RootElement.ToString":
		return e.results(st, cc.Sig, cc.Name, false), true
	}
	return nil, false
}

// interfere adds the states in which an event happened here.
func (w *reqs) interfere(st *State) []*State {
	out := []*State{st}
	if !w.inter || gint(st, "event") > 0 || gint(st, "inner") > 0 || gint(st, "interfered") > 0 {
		return out
	}
	n := st.clone()
	n.g["inner"] = intV(1)
	for _, s := range w.expire(n) {
		delete(s.g, "inner")
		s.g["interfered"] = intV(1)
		out = append(out, s)
	}
	return out
}

// expire: the timers which run, or could not be stopped, expire.
func (w *reqs) expire(st *State) []*State {
	var out []*State
	for _, k := range gkeys(st, "tm:") {
		if s := gstr(st, k); s != "armed" && s != "late" {
			continue
		}
		n := st.clone()
		n.g[k] = VStr{"fired"}
		if gint(st, "answered") == 0 {
			n.g["expired"] = intV(1)
		}
		stack := w.e.stack
		w.e.stack = nil
		for _, x := range w.e.callFunc(n, nil, w.timers[strings.TrimPrefix(k, "tm:")], nil) {
			out = append(out, x.st)
		}
		w.e.stack = stack
	}
	return out
}

// answer: the listeners of a node are called.
func (w *reqs) answer(st *State, node Val, err Val) []*State {
	var ls []Val
	for _, k := range gkeys(st, "reg:"+vkey(node)+"|") {
		ls = append(ls, st.g[k].(VTuple)[1])
	}
	var out []*State
	orders := [][]Val{ls}
	if len(ls) > 1 {
		var rev []Val
		for i := len(ls) - 1; i >= 0; i-- {
			rev = append(rev, ls[i])
		}
		orders = append(orders, rev)
	}
	lt := w.r.p.typ("embertree.Listener")
	var recv *types.Func
	it := lt.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Receive" {
			recv = it.Method(i)
		}
	}
	stack := w.e.stack
	w.e.stack = nil
	defer func() { w.e.stack = stack }()
	for _, o := range orders {
		sts := []*State{st.clone()}
		for _, l := range o {
			var n []*State
			if w.rule == "completion" {
				for _, s := range sts {
					if gint(s, "odd") > 0 {
						continue
					}
					m := s.clone()
					m.g["odd"] = intV(1)
					for _, x := range w.expire(m) {
						sts = append(sts, x)
					}
				}
			}
			for _, s := range sts {
				s.g["event"] = intV(1)
				for _, x := range w.receive(s, recv, l, VIface{w.nodeT(node), node}, err) {
					n = append(n, x.st)
				}
			}
			sts = n
		}
		for _, s := range sts {
			delete(s.g, "event")
			gadd(s, "answers")
			s.g["answered"] = intV(1)
			out = append(out, s)
		}
	}
	return out
}

func (w *reqs) nodeT(node Val) types.Type {
	if p, ok := node.(VPtr); ok {
		for _, n := range []string{"embertree.Element", "embertree.RootElement"} {
			t := w.r.p.typ(n)
			if strings.HasSuffix(w.kindOf(p), n) {
				return types.NewPointer(t)
			}
		}
	}
	return types.NewPointer(w.r.p.typ("embertree.Element"))
}

func (w *reqs) kindOf(p VPtr) string {
	if w.kinds[vkey(p)] {
		return "embertree.RootElement"
	}
	return "embertree.Element"
}

func (w *reqs) receive(st *State, m *types.Func, l, node, err Val) []Exit {
	if i, ok := l.(VIface); ok {
		f := w.e.prog.LookupMethod(i.T, m.Pkg(), m.Name())
		if f != nil {
			return w.e.call(st, f, []Val{i.V, node, err})
		}
	}
	cc := &CallCtx{Name: "(embertree.Listener).Receive", Recv: w.r.p.typ("embertree.Listener"), Method: m, Args: []Val{l, node, err}, Sig: m.Signature()}
	ex, _ := w.invoke(st, cc)
	if ex == nil {
		return []Exit{{st, nil}}
	}
	return ex
}

// internal lists the registered listeners which are not the user's.
func (w *reqs) internal(st *State) []string {
	var out []string
	for _, k := range gkeys(st, "reg:") {
		if !sameVal(st, st.g[k].(VTuple)[1], w.cb) {
			out = append(out, k)
		}
	}
	return out
}

func (w *reqs) running(st *State) int {
	n := 0
	for _, k := range gkeys(st, "tm:") {
		if gstr(st, k) == "armed" {
			n++
		}
	}
	return n
}

// setup is a client in any state with the given time limit.
func (r *Run) newReqs(rule, name string, e *Engine, limit bool) (*reqs, []*State) {
	c, st := r.newClient(e, e.start())
	if c == nil {
		return nil, nil
	}
	w := &reqs{r: r, c: c, e: e, rule: rule, name: name, timers: map[string]VFunc{}, gos: map[string]loopCall{}, nodes: map[string]Val{}, seen: map[string]bool{}, kinds: map[string]bool{}}
	c.loop = true
	e.onGo = nil
	prev := e.onCall
	e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if ex, ok := w.call(st, cc); ok {
			return ex, true
		}
		return prev(st, cc)
	}
	pi := e.onInvoke
	e.onInvoke = func(st *State, cc *CallCtx) ([]Exit, bool) {
		if ex, ok := w.invoke(st, cc); ok {
			return ex, true
		}
		return pi(st, cc)
	}
	e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
		r.fail(rule, name, r.p.pos(in), "the request can crash: "+what)
	}
	c.anyState(st)
	w.cb = e.fresh(r.p.typ("embertree.Listener"), "listener")
	w.errAns = e.fresh(r.p.typ("errors.Error"), "answer error")
	e.nonNil[w.cb.(VSym).S] = true
	e.nonNil[w.errAns.(VSym).S] = true
	ms := VInt{lc(0)}
	if limit {
		ms = VInt{e.newInt(intT, "msTimeout", 1, 1<<31-1)}
	}
	e.roots = append(e.roots, w.cb, w.errAns, ms)
	var sts []*State
	for _, x := range c.do(st, "SetTimeout", ms) {
		sts = append(sts, x.st)
	}
	w.rootNode(sts)
	return w, sts
}

// rootNode finds the tree of the client.
func (w *reqs) rootNode(sts []*State) {
	t := w.r.p.typ("embertree.RootElement")
	for _, s := range sts {
		for _, o := range s.objs {
			if types.Identical(o.T, t) {
				w.kinds[vkey(VPtr{o.id, ""})] = true
			}
		}
	}
}

func (w *reqs) newElement(sts []*State, n int64, parent Val) (Val, []*State) {
	f := w.r.need("embertree.NewNode")
	add := w.r.need("embertree.Element.AddChild")
	radd := w.r.need("embertree.RootElement.AddElement")
	if f == nil || add == nil || radd == nil {
		return nil, nil
	}
	var el Val
	var out []*State
	for _, s := range sts {
		for _, x := range w.e.call(s, f, []Val{intV(n)}) {
			el = x.st.nv(x.res)
			w.e.roots = append(w.e.roots, el)
			if parent == nil {
				out = append(out, x.st)
				continue
			}
			g := add
			if w.kinds[vkey(parent)] {
				g = radd
			}
			for _, y := range w.e.call(x.st, g, []Val{parent, el}) {
				out = append(out, y.st)
			}
		}
	}
	return el, out
}

func (w *reqs) tree(st *State) Val {
	for k := range w.kinds {
		for _, o := range st.objs {
			if p := (VPtr{o.id, ""}); vkey(p) == k {
				return p
			}
		}
	}
	return nil
}

func (r *Run) c24() {
	r.rule("timeout: a directory request with a time limit starts one timer; it reports at most one timeout, none after its response, and one if the timer expires first")
	r.rule("cleanup: no timer runs and no internal listener is registered once the request is answered, timed out or refused")
	r.rule("completion: a tree request reports completion when, and only when, no part is outstanding: neither about to start nor waiting for its answer")
	r.assumes("listeners are registered and called as C16 demands, fields are accessed as C23 demands")
	for _, limit := range []bool{true, false} {
		for _, root := range []bool{true, false} {
			for _, cb := range []bool{true, false} {
				r.dirRequest(limit, root, cb)
			}
		}
	}
	for _, limit := range []bool{false, true} {
		for _, n := range []int{0, 1, 2, 3} {
			r.treeRequest(limit, n)
		}
	}
}

func (r *Run) dirRequest(limit, root, cb bool) {
	e := r.engine()
	name := "directory request of " + map[bool]string{true: "the root", false: "an element"}[root]
	if limit {
		name += " with a time limit"
	}
	if !cb {
		name += " without a listener"
	}
	rule := "timeout"
	ends := 0
	r.guard(name, e, func() {
		w, sts := r.newReqs(rule, name, e, limit)
		if w == nil {
			return
		}
		node := Val(VNil{})
		at := Val(nil)
		if root {
			if len(sts) > 0 {
				at = w.tree(sts[0])
			}
		} else {
			node, sts = w.newElement(sts, 1, nil)
			at = node
		}
		l := w.cb
		if !cb {
			l = VNil{}
		}
		w.inter = true
		var explore func(st *State, ev string)
		explore = func(st *State, ev string) {
			ends++
			key := fmt.Sprint(ev == "", gint(st, "answers"), gint(st, "timeouts"), gstr(st, "refused"))
			for _, k := range gkeys(st, "tm:") {
				key += k + gstr(st, k)
			}
			_ = key
			timed, running, in := gint(st, "timeouts") > 0, w.running(st), w.internal(st)
			over := ""
			switch {
			case gstr(st, "refused") != "":
				over = "refused"
			case gint(st, "answered") > 0:
				over = "answered"
			case timed:
				over = "timed out"
			}
			r.oblige("cleanup", name, "", over == "" || running == 0, "a timer still runs after the request was "+over)
			r.oblige("cleanup", name, "", over == "" || len(in) == 0, "an internal listener is still registered after the request was "+over)
			if over == "" && limit && cb {
				r.oblige("timeout", name, "", running == 1 || gint(st, "expired") > 0, fmt.Sprintf("%d timers run for a request with a time limit", running))
			}
			if gint(st, "expired") > 0 && over == "" {
				r.oblige("timeout", name, "", gint(st, "timeouts") == 1, "the timer expires but no timeout is reported")
			}
			if !limit {
				r.oblige("timeout", name, "", running == 0, "a timer runs without a time limit")
			}
			if len(ev) >= 4 {
				return
			}
			for _, s := range w.expire(st) {
				explore(s, ev+"T")
			}
			if at != nil && gint(st, "answers") < 2 {
				for _, er := range []Val{VNil{}, w.errAns} {
					for _, s := range w.answer(st, at, er) {
						explore(s, ev+"A")
					}
				}
			}
		}
		for _, st := range sts {
			for _, x := range w.c.do(st, "GetDirectory", node, l) {
				w.inter = false
				if x.st.nilness(x.res) != 1 {
					if x.st.nilness(x.res) == 0 {
						n := x.st.clone()
						if n.setNil(x.res) {
							explore(n, "")
						}
						x.st.setNonNil(x.res)
					}
					x.st.g["refused"] = VStr{"refused"}
				}
				explore(x.st, "")
				w.inter = true
			}
		}
	})
	r.oblige(rule, name, "", ends > 1, "the request does not return")
	r.count("event_orders", ends)
}

func (r *Run) treeRequest(limit bool, shape int) {
	e := r.engine()
	name := fmt.Sprintf("tree request of a tree with %s", []string{"no element", "one element", "two elements", "one element and its child"}[shape])
	if limit {
		name += " with a time limit"
	}
	rule := "completion"
	ends := 0
	r.guard(name, e, func() {
		w, sts := r.newReqs(rule, name, e, limit)
		if w == nil || len(sts) == 0 {
			return
		}
		root := w.tree(sts[0])
		if root == nil {
			r.fail("anchor", "socket.S101Client", "", "the client holds no tree")
			return
		}
		nodes := []Val{root}
		addN := func(n int64, parent Val) {
			var el Val
			el, sts = w.newElement(sts, n, parent)
			nodes = append(nodes, el)
		}
		switch shape {
		case 1:
			addN(1, root)
		case 2:
			addN(1, root)
			addN(2, root)
		case 3:
			addN(1, root)
			addN(7, nodes[1])
		}
		var run func(st *State, k string) []*State
		run = func(st *State, k string) []*State {
			g := w.gos[k]
			n := st.clone()
			delete(n.g, k)
			var out []*State
			f, ok := g.fn.(VFunc)
			if !ok {
				return nil
			}
			depth := gint(n, "nested")
			n.g["nested"] = intV(depth + 1)
			stack := e.stack
			e.stack = nil
			defer func() { e.stack = stack }()
			for _, x := range e.callFunc(n, g.in, f, g.args) {
				x.st.g["nested"] = intV(depth)
				out = append(out, x.st)
			}
			return out
		}
		e.onGoRun = func(st *State, in *ssa.Go, fn Val, args []Val) []*State {
			w.ngo++
			k := fmt.Sprintf("go:%04d", w.ngo)
			w.gos[k] = loopCall{nil, in, fn, args}
			e.roots = append(e.roots, fn)
			if f, ok := fn.(VFunc); ok {
				e.roots = append(e.roots, f.B...)
			}
			e.roots = append(e.roots, args...)
			st.g[k] = intV(1)
			out := []*State{st}
			if gint(st, "nested") < 2 && len(gkeys(st, "lk:")) == 0 {
				// it may run, and be answered, at once
				for _, s := range run(st, k) {
					out = append(out, s)
					if gint(s, "nested") == 0 {
						for _, nd := range nodes[1:] {
							if len(gkeys(s, "reg:"+vkey(nd)+"|")) > 0 {
								ev := s.g["event"]
								for _, a := range w.answer(s, nd, VNil{}) {
									if ev != nil {
										a.g["event"] = ev
									}
									out = append(out, a)
								}
							}
						}
					}
				}
			}
			return out
		}
		var explore func(st *State, ev string)
		explore = func(st *State, ev string) {
			if len(r.finds) > 5 {
				return
			}
			ends++
			waiting := map[string]bool{}
			for _, k := range w.internal(st) {
				if !w.isTimerListener(st, k) {
					waiting[k[:strings.Index(k, "|")]] = true
				}
			}
			parts := len(gkeys(st, "go:")) + len(waiting)
			done := gint(st, "completions")
			switch {
			case gstr(st, "refused") != "":
				r.oblige(rule, name, "", done <= 1 && parts == 0, "a refused tree request leaves something behind")
			case parts > 0:
				r.oblige(rule, name, "", done == 0, "completion is reported while a part is outstanding (after "+ev+")")
			default:
				r.oblige(rule, name, "", done == 1, fmt.Sprintf("completion is reported %d times though nothing is outstanding (after %s)", done, ev))
			}
			if parts == 0 {
				r.oblige("cleanup", name, "", w.running(st) == 0, "a timer still runs after the tree request (after "+ev+")")
				r.oblige("cleanup", name, "", len(w.internal(st)) == 0, "an internal listener is still registered after the tree request (after "+ev+")")
			}
			if len(ev) > 60 {
				return
			}
			for _, k := range gkeys(st, "go:") {
				for _, s := range run(st, k) {
					explore(s, ev+" start")
				}
			}
			for i, nd := range nodes {
				regs := len(gkeys(st, "reg:"+vkey(nd)+"|"))
				ak := fmt.Sprintf("ans%d", i)
				if regs > 0 && gint(st, ak) < 2 && (gint(st, ak) == 0 || gint(st, "odd") == 0) {
					for j, er := range []Val{VNil{}, w.errAns} {
						for _, s := range w.answer(st, nd, er) {
							gadd(s, ak)
							if gint(s, ak) > 1 {
								gadd(s, "odd")
							}
							explore(s, ev+fmt.Sprintf(" %s %d", []string{"answer", "failure"}[j], i))
						}
					}
				}
			}
			for _, s := range w.expire(st) {
				explore(s, ev+" expiry")
			}
		}
		for _, st := range sts {
			for _, x := range w.c.do(st, "GetTree", w.cb) {
				if x.st.nilness(x.res) == 2 {
					x.st.g["refused"] = VStr{"refused"}
				}
				explore(x.st, "")
			}
		}
	})
	r.oblige(rule, name, "", ends > 1, "the request does not return")
	r.count("event_orders", ends)
}

// isTimerListener: the listener holds the timer of its request.
func (w *reqs) isTimerListener(st *State, k string) bool {
	l, ok := st.g[k].(VTuple)[1].(VIface)
	if !ok {
		return false
	}
	p, ok := st.ptr(l.V)
	if !ok || st.objs[p.O] == nil {
		return false
	}
	s, ok := st.objs[p.O].T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && namedIs(pt.Elem(), "time", "Timer") {
			return true
		}
	}
	return false
}
