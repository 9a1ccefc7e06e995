package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = check{run: (*Run).c31, expl: "Abstract execution of the client over scripts of events: requests are issued before and after connecting, while the service loop waits for data, and until one is refused; the bytes given to the connection must be the frames of exactly the requests which were accepted, in this order. At each read of the service loop a time limit must be in force."}
}

// listModel keeps the elements of a container/list in order.
func (e *Engine) listModel(st *State, c *CallCtx) ([]Exit, bool) {
	const pre = "(*container/list.List)."
	if !strings.HasPrefix(c.Name, pre) {
		return nil, false
	}
	p, ok := e.opaque(st, c)
	if !ok {
		return nil, true
	}
	k := fmt.Sprintf("list:%d%s", p.O, p.P)
	l, _ := st.g[k].(VTuple)
	at := func(i int) Val {
		if i < 0 || i >= len(l) {
			return VNil{}
		}
		return l[i]
	}
	index := func(v Val) int {
		for i := range l {
			if sameVal(st, l[i], v) {
				return i
			}
		}
		return -1
	}
	add := func(i int, v Val) Val {
		et := c.resT().(*types.Pointer).Elem()
		n := VPtr{st.alloc(et, "list element"), ""}
		st.store(VPtr{n.O, ".Value"}, v, types.Universe.Lookup("any").Type())
		m := append(append(append(VTuple{}, l[:i]...), n), l[i:]...)
		st.g[k] = m
		return n
	}
	switch strings.TrimPrefix(c.Name, pre) {
	case "Init":
		delete(st.g, k)
		return ret(st, p), true
	case "Len":
		return ret(st, intV(int64(len(l)))), true
	case "Front":
		return ret(st, at(0)), true
	case "Back":
		return ret(st, at(len(l)-1)), true
	case "PushBack":
		return ret(st, add(len(l), c.Args[1])), true
	case "PushFront":
		return ret(st, add(0, c.Args[1])), true
	case "InsertBefore", "InsertAfter":
		i := index(c.Args[2])
		if i < 0 {
			return ret(st, VNil{}), true
		}
		if strings.HasSuffix(c.Name, "After") {
			i++
		}
		return ret(st, add(i, c.Args[1])), true
	case "MoveToFront", "MoveToBack":
		if i := index(c.Args[1]); i >= 0 {
			m := append(append(VTuple{}, l[:i]...), l[i+1:]...)
			if strings.HasSuffix(c.Name, "Front") {
				m = append(VTuple{l[i]}, m...)
			} else {
				m = append(m, l[i])
			}
			st.g[k] = m
		}
		return ret(st, nil), true
	case "Remove":
		if i := index(c.Args[1]); i >= 0 {
			st.g[k] = append(append(VTuple{}, l[:i]...), l[i+1:]...)
		}
		if q, ok := st.nv(c.Args[1]).(VPtr); ok {
			return ret(st, st.load(VPtr{q.O, q.P + ".Value"}, c.resT())), true
		}
	}
	return nil, false
}

// queue follows what a client sends.
type queue struct {
	r     *Run
	e     *Engine
	c     *client
	rule  string
	name  string
	nodes []Val
	want  []string // the frames of the request for each node
	later map[int64][]int
	max   int64
	bad   bool
}

func (q *queue) fail(rule, pos, msg string) {
	q.bad = true
	q.r.fail(rule, q.name, pos, msg)
}

// one is the only outcome of a call which the rule can use.
func (q *queue) one(what string, ex []Exit) (Exit, bool) {
	if len(ex) != 1 {
		q.fail("analysis", "", fmt.Sprintf("%s has %d outcomes", what, len(ex)))
		return Exit{}, false
	}
	return ex[0], true
}

func (q *queue) fn(n string) *ssa.Function { return q.r.need(n) }

// raw are the bytes of a value if they are all known.
func (q *queue) raw(st *State, v Val) (string, bool) {
	var b strings.Builder
	for _, s := range canon(st, q.e.segsOf(st, st.nv(v))) {
		if s.Kind != segByte || !s.B.isC() {
			return "", false
		}
		b.WriteByte(byte(s.B.C))
	}
	return b.String(), true
}

// frames are those which a request has to be sent as.
func (q *queue) frames(st *State, node Val) (string, bool) {
	var msg Exit
	var ok bool
	if node == nil {
		t, ok1 := q.one("NewTree", q.e.call(st, q.fn("embertree.NewTree"), nil))
		if !ok1 {
			return "", false
		}
		f := q.fn("embertree.RootElement.GetDirectoryMsg")
		if msg, ok = q.one("GetDirectoryMsg", q.e.call(t.st, f, []Val{t.res, VNil{}})); !ok {
			return "", false
		}
		msg.res = resAt(f.Signature, msg.res, 0)
	} else if msg, ok = q.one("GetQualifiedDirectoryMsg", q.e.call(st, q.fn("embertree.Element.GetQualifiedDirectoryMsg"), []Val{node, VNil{}})); !ok {
		return "", false
	}
	st = msg.st
	q.e.roots = append(q.e.roots, msg.res)
	wt := q.r.p.typ("asn1.ASNWriter")
	w := VPtr{st.alloc(wt, "writer"), ""}
	q.e.roots = append(q.e.roots, w)
	en, ok := q.one("Encode", q.e.call(st, q.fn("embertree.RootElement.Encode"), []Val{msg.res, w}))
	if !ok || en.st.nilness(en.res) != 1 {
		return "", false
	}
	ln, ok := q.one("Len", q.e.call(en.st, q.fn("asn1.ASNWriter.Len"), []Val{w}))
	if !ok {
		return "", false
	}
	n := ln.st.norm(ln.st.intOf(ln.res))
	if !n.isC() {
		return "", false
	}
	zero := make([]Seg, n.C)
	for i := range zero {
		zero[i] = Seg{Kind: segByte, B: lc(0)}
	}
	buf := ln.st.bytesOf(zero, "message")
	q.e.roots = append(q.e.roots, buf)
	rd, ok := q.one("Read", q.e.call(ln.st, q.fn("asn1.ASNWriter.Read"), []Val{w, buf}))
	if !ok {
		return "", false
	}
	fr, ok := q.one("EncodeMessage", q.e.call(rd.st, q.fn("socket.EncodeMessage"), []Val{buf}))
	if !ok {
		return "", false
	}
	q.e.roots = append(q.e.roots, fr.res)
	sz, ok := q.one("Size", q.e.call(fr.st, q.fn("socket.S101FrameList.Size"), []Val{fr.res}))
	if !ok {
		return "", false
	}
	k := sz.st.norm(sz.st.intOf(sz.res))
	out := ""
	st = sz.st
	for i := int64(0); i < k.C; i++ {
		f := q.fn("socket.S101FrameList.GetBytesAt")
		g, ok := q.one("GetBytesAt", q.e.call(st, f, []Val{fr.res, intV(i)}))
		if !ok {
			return "", false
		}
		b, ok := q.raw(g.st, resAt(f.Signature, g.res, 0))
		if !ok {
			return "", false
		}
		out += b
		st = g.st
	}
	q.r.count("frames of requests", int(k.C))
	return out, out != ""
}

// issue requests the directory of a node; what was accepted is noted.
func (q *queue) issue(st *State, i int) (*State, bool) {
	var node Val = VNil{}
	if q.nodes[i] != nil {
		node = q.nodes[i]
	}
	x, ok := q.one("GetDirectory", q.c.do(st, "GetDirectory", node, VNil{}))
	if !ok {
		return st, false
	}
	switch x.st.nilness(x.res) {
	case 1:
		x.st.g["accepted"] = VStr{gstr(x.st, "accepted") + q.want[i]}
		x.st.g["naccepted"] = intV(gint(x.st, "naccepted") + 1)
		return x.st, true
	case 2:
		x.st.g["refused"] = intV(gint(x.st, "refused") + 1)
		return x.st, true
	}
	q.fail("analysis", "", "it is not known whether a request is refused")
	return x.st, false
}

func (q *queue) conn(st *State, cc *CallCtx) ([]Exit, bool) {
	if !namedIs(cc.Recv, "net", "Conn") {
		return q.c.invoke(st, cc)
	}
	pos := q.r.p.pos(cc.Site)
	switch cc.Method.Name() {
	case "Write":
		b, ok := q.raw(st, cc.Args[1])
		if !ok {
			q.fail("analysis", pos, "the bytes which are sent are not determined")
			return nil, true
		}
		st.g["sent"] = VStr{gstr(st, "sent") + b}
		if s, a := gstr(st, "sent"), gstr(st, "accepted"); !strings.HasPrefix(a, s) {
			q.fail(q.rule, pos, "what is sent here is not the next frame of the next request: "+q.tell(b))
			return nil, true
		}
		return ret(st, VTuple{VInt{st.lenOf(cc.Args[1])}, VNil{}}), true
	case "SetReadDeadline", "SetDeadline":
		if zeroTime(st, cc.Args[1]) {
			delete(st.g, "deadline")
		} else {
			st.g["deadline"] = intV(1)
		}
		return ret(st, VNil{}), true
	case "Read":
		q.r.oblige("deadline", q.name, pos, st.g["deadline"] != nil, "data is awaited without a time limit, so that requests issued meanwhile are not sent")
		if st.g["deadline"] == nil {
			return nil, true
		}
		n := gint(st, "reads")
		st.g["reads"] = intV(n + 1)
		for _, i := range q.later[n] {
			var ok bool
			if st, ok = q.issue(st, i); !ok {
				return nil, true
			}
		}
		// as the next event: nothing more to be sent, or too many turns
		if n > q.max || n > 20 && gstr(st, "sent") == gstr(st, "accepted") {
			return ret(st, VTuple{intV(0), q.c.errEOF}), true
		}
		return ret(st, VTuple{intV(0), q.c.errTimeout}), true
	case "Close":
		return ret(st, VNil{}), true
	}
	return q.e.results(st, cc.Sig, cc.Name, false), true
}

// tell names the request to which frames belong.
func (q *queue) tell(b string) string {
	for i, w := range q.want {
		if b != "" && strings.Contains(w, b) {
			return fmt.Sprintf("a frame of request kind %d", i)
		}
	}
	return fmt.Sprintf("%d bytes of no request", len(b))
}

// zeroTime: the zero time, which takes a time limit away.
func zeroTime(st *State, v Val) bool {
	a, ok := st.nv(v).(VAgg)
	if !ok || a.Lazy {
		return false
	}
	for _, x := range a.Cells {
		switch y := st.nv(x).(type) {
		case VNil:
		case VInt:
			if !y.L.isC() || y.L.C != 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *Run) c31() {
	r.rule("order: what is given to the connection is, byte for byte, the frames of the requests which were accepted, in the order in which they were issued, each once; after at most a few turns of the service loop nothing is left")
	r.rule("deadline: whenever the service loop reads from the connection a time limit is in force")
	r.rule("refused: a request is refused rather than dropped when the queue is full, and the others are still sent")
	r.assumes("the frames of a request are those which EncodeMessage makes of the message which GetQualifiedDirectoryMsg, or GetDirectoryMsg of a tree, returns (C05, C14, C20)")
	r.assumes("writes to the connection succeed (C22 follows those which fail)")
	r.script("requests before connecting", []int{1, 0, 2, 3, 1}, nil, nil, 0)
	r.script("requests before and after connecting", []int{2}, []int{1, 3, 0, 2}, nil, 0)
	r.script("requests while data is awaited", []int{1, 2, 3, 0, 1, 2}, nil, map[int64][]int{0: {3, 2}, 1: {1}, 4: {0, 1, 2, 3, 1}}, 0)
	r.script("requests after turns with nothing to send", nil, nil, map[int64][]int{2: {2, 1}, 3: {0}}, 0)
	r.script("a request of several packets", []int{1, 4, 2}, []int{4, 3}, nil, 0)
	r.script("requests until one is refused", nil, nil, nil, 600)
}

func (r *Run) script(name string, before, after []int, later map[int64][]int, fill int) {
	e := r.engine()
	e.detCap = 4000
	e.forkIndex = 4000
	e.lists = true
	e.unroll, e.cap, e.exitCap, e.peel = 8, 64, 64, 4000
	e.budget = 60000000
	q := &queue{r: r, e: e, rule: "order", name: name, later: later, max: 60}
	if fill > 0 {
		q.max = int64(fill)
	}
	prev := e.onCall
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if ex, ok := e.listModel(st, c); ok {
			return ex, true
		}
		if c.Fn != nil && strings.HasPrefix(e.short(c.Fn), "socket.CalculateCRC") && c.Sig.Results().Len() == 1 {
			return ret(st, intV(0x1234)), true // C18, C19
		}
		if prev != nil {
			return prev(st, c)
		}
		return nil, false
	}
	ends := 0
	r.guard(name, e, func() {
		c, st := r.newClient(e, e.start())
		if c == nil {
			return
		}
		q.c = c
		e.onInvoke = q.conn
		oid := r.p.typ("asn1.RelativeOID")
		et := types.Type(types.Typ[types.Int32])
		if s, ok := oid.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		path := func(ns ...int64) Val {
			id := st.alloc(types.NewArray(et, int64(len(ns))), "path")
			for i, n := range ns {
				st.store(VPtr{id, fmt.Sprintf("[%d]", i)}, intV(n), et)
			}
			n := lc(int64(len(ns)))
			v := VSlice{id, "", lc(0), n, n}
			e.roots = append(e.roots, v)
			return v
		}
		var long []int64
		uses := func(l []int) bool {
			for _, i := range l {
				if i == 4 {
					return true
				}
			}
			return false
		}
		if uses(before) || uses(after) {
			for i := int64(0); i < 135; i++ { // five digits each, three of which are escaped
				long = append(long, 0x7FFFFFFF)
			}
		}
		mk := func(f string, args ...Val) bool {
			x, ok := q.one(f, e.call(st, q.fn(f), args))
			if !ok {
				return false
			}
			st = x.st
			e.roots = append(e.roots, x.res)
			q.nodes = append(q.nodes, x.res)
			return true
		}
		q.nodes = []Val{nil}
		if !mk("embertree.NewNode", intV(5)) || !mk("embertree.NewQualifiedNode", path(1, 7)) || !mk("embertree.NewParameter", intV(9)) {
			return
		}
		if len(long) > 0 && !mk("embertree.NewQualifiedNode", path(long...)) {
			return
		}
		for i, n := range q.nodes {
			w, ok := q.frames(st.clone(), n)
			if !ok {
				q.fail("analysis", "", fmt.Sprintf("the frames of request kind %d are not determined", i))
				return
			}
			q.want = append(q.want, w)
		}
		for _, i := range before {
			var ok bool
			if st, ok = q.issue(st, i); !ok {
				return
			}
		}
		if fill > 0 {
			i := 0
			for ; i < fill && gint(st, "refused") == 0; i++ {
				var ok bool
				if st, ok = q.issue(st, 1+i%3); !ok {
					return
				}
			}
			r.count("requests waiting at once", i)
		}
		for _, s := range c.connected(st) {
			for _, i := range after {
				var ok bool
				if s, ok = q.issue(s, i); !ok {
					return
				}
			}
			for _, l := range c.loops {
				f, ok := l.fn.(VFunc)
				if !ok {
					continue
				}
				delete(s.g, "locks")
				e.roots = append(e.roots, l.args...)
				for _, x := range e.callFunc(s.clone(), l.in, f, l.args) {
					ends++
					sent, acc := gstr(x.st, "sent"), gstr(x.st, "accepted")
					if sent != acc {
						q.fail("order", "", fmt.Sprintf("of %d bytes of accepted requests %d were sent in %d turns", len(acc), len(sent), gint(x.st, "reads")))
					}
					r.count("requests sent in order", int(gint(x.st, "naccepted")))
				}
			}
		}
	})
	if !q.bad {
		r.oblige("order", name, "", ends > 0, "the service loop does not end after the connection")
	}
}
