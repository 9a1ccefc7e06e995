package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = check{run: (*Run).c02, expl: "Every loop which is reached while decoding unknown input - by the BER reader on unknown bytes, by the Ember+ decoders on a reader each of whose operations may succeed or fail, by the S101 decoder on unknown bytes in any state - is executed abstractly, and for every way back to its start it is shown that input was consumed, or that the difference which an exit test of the loop compares moved towards the exit. Recursion is bounded. Each object is decoded with an unknown field in every set."}
}

// progress looks at the loops of an abstract execution.
type progress struct {
	r     *Run
	e     *Engine
	marks map[*ssa.BasicBlock]map[string]*ssa.Const
	grow  func(loop string, pos token.Pos, st *State, l Lin) // a loop which is not bounded by its input has added something to what is held
	sizes map[SymID]bool                                     // of what was allocated
	flags bool                                               // consumption is told by flags and not by positions
	seen  map[string]bool
	bad   map[string]string
	where map[string]token.Pos
}

func (r *Run) watchLoops(e *Engine, flags bool) *progress {
	w := &progress{r: r, e: e, flags: flags, marks: map[*ssa.BasicBlock]map[string]*ssa.Const{}, seen: map[string]bool{}, bad: map[string]string{}, where: map[string]token.Pos{}}
	e.onInfo = w.info
	e.onEdge = w.edge
	e.onPass = w.pass
	for _, fi := range e.infos {
		w.info(fi)
	}
	return w
}

// info keeps the operands of the exit tests of loops.
func (w *progress) info(fi *fnInfo) {
	if fi.keep == nil {
		fi.keep = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	for h, body := range fi.loops {
		for b := range body {
			for _, v := range w.tests(body, b) {
				for c := range body {
					if c == h {
						continue
					}
					if fi.keep[c] == nil {
						fi.keep[c] = map[ssa.Value]bool{}
					}
					fi.keep[c][v.X], fi.keep[c][v.Y] = true, true
				}
			}
		}
	}
}

// tests are the comparisons of which a block leaves a loop.
func (w *progress) tests(body map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) []*ssa.BinOp {
	if len(b.Instrs) == 0 {
		return nil
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
		return nil
	}
	c := f.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c = u.X
	}
	if t, ok := c.(*ssa.BinOp); ok && isIntT(t.X.Type()) {
		return []*ssa.BinOp{t}
	}
	return nil
}

// keepGoing: how the operands of the test compare when the loop goes on.
func keepGoing(body map[*ssa.BasicBlock]bool, b *ssa.BasicBlock, t *ssa.BinOp) token.Token {
	stay := body[b.Succs[0]]
	for c := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond; c != ssa.Value(t); c = c.(*ssa.UnOp).X {
		stay = !stay
	}
	if stay {
		return t.Op
	}
	return map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[t.Op]
}

func (w *progress) name(h *ssa.BasicBlock) string {
	f := h.Parent()
	n := 1
	for _, b := range f.Blocks {
		if b == h {
			break
		}
		if w.e.info(f).loops[b] != nil {
			n++
		}
	}
	return fmt.Sprintf("loop %d of %s", n, w.r.p.short(f))
}

func (w *progress) mark(h *ssa.BasicBlock, key string) *ssa.Const {
	m := w.marks[h]
	if m == nil {
		m = map[string]*ssa.Const{}
		w.marks[h] = m
	}
	if m[key] == nil {
		m[key] = ssa.NewConst(nil, intT)
		fi := w.e.info(h.Parent())
		for b := range fi.loops[h] {
			if b == h {
				continue
			}
			if fi.keep[b] == nil {
				fi.keep[b] = map[ssa.Value]bool{}
			}
			fi.keep[b][m[key]] = true
		}
	}
	return m[key]
}

// inputs are the bytes which are left in each byte reader.
func (w *progress) inputs(st *State) map[string]Lin {
	out := map[string]Lin{}
	for id, o := range st.objs {
		for k := range o.Cells {
			if strings.HasSuffix(k, "#pos") {
				p := VPtr{id, strings.TrimSuffix(k, "#pos")}
				_, _, left := st.rdLeft(p)
				out[fmt.Sprint(id, p.P)] = left
			}
			if strings.HasSuffix(k, "#segs") {
				p := VPtr{id, strings.TrimSuffix(k, "#segs")}
				out[fmt.Sprint(id, p.P, " buffer")] = st.norm(segsLen(st.attrSegs(p, "#segs")))
			}
		}
	}
	return out
}

// pass: a state from which the loop runs.
func (w *progress) pass(st *State, fn *ssa.Function, h *ssa.BasicBlock) {
	fi := w.e.info(fn)
	for k := range st.g {
		if strings.HasPrefix(k, "it:") || strings.HasPrefix(k, "gr:") {
			// loops of this function which are left
			var d, i int
			fmt.Sscanf(k[3:], "%d:%d", &d, &i)
			if d > len(w.e.stack) || d == len(w.e.stack) && i < len(fn.Blocks) && !fi.loops[fn.Blocks[i]][h] {
				delete(st.g, k)
			}
		}
	}
	if w.grow != nil {
		st.g["gr"+w.flag(h)[2:]] = intV(0)
	}
	if w.flags {
		st.g[w.flag(h)] = intV(0)
		return
	}
	for v, x := range st.fr.regs {
		if _, isC := v.(*ssa.Const); !isC && v.Type().String() == "*bytes.Reader" {
			if p, ok := st.ptr(x); ok {
				_, at, _ := st.rdLeft(p)
				st.setAttr(p, "#pos", VInt{at})
			}
		}
	}
	for k, l := range w.inputs(st) {
		st.fr.regs[w.mark(h, k)] = VInt{l}
	}
}

func (w *progress) flag(h *ssa.BasicBlock) string {
	return fmt.Sprintf("it:%d:%d", len(w.e.stack), h.Index)
}

// consumed: input was consumed.
func (w *progress) consumed(st *State) {
	for k := range st.g {
		if strings.HasPrefix(k, "it:") {
			st.g[k] = intV(1)
		}
	}
}

// edge: the loop is about to run again.
func (w *progress) edge(st *State, fi *fnInfo, from, h *ssa.BasicBlock) {
	idle := fmt.Sprintf("idle:%d:%d", len(w.e.stack), h.Index)
	if !fi.loops[h][from] {
		delete(st.g, idle)
		return
	}
	n := w.name(h)
	w.seen[n] = true
	if w.where[n] == 0 {
		for _, b := range h.Parent().Blocks {
			if fi.loops[h][b] {
				for _, in := range b.Instrs {
					if p := in.Pos(); p.IsValid() && (w.where[n] == 0 || p < w.where[n]) {
						w.where[n] = p
					}
				}
			}
		}
	}
	if by, ok := w.moved(st, fi, from, h); ok {
		if by != nil && w.grow != nil && gint(st, "gr"+w.flag(h)[2:]) == 1 {
			w.grow(n, w.where[n], st, *by)
		}
		delete(st.g, idle)
		return
	}
	if gint(st, idle) != 1 { // it may still find that there is nothing left to do
		st.g[idle] = intV(1)
		return
	}
	w.bad[n] = "it may run again and again without consuming input or coming nearer to its end"
}

// grew: something was added to what is held.
func (w *progress) grew(st *State) {
	for k := range st.g {
		if strings.HasPrefix(k, "gr:") {
			st.g[k] = intV(1)
		}
	}
}

// moved: this turn of the loop consumed input or brought its end nearer; in the latter case the result is how far it is.
func (w *progress) moved(st *State, fi *fnInfo, from, h *ssa.BasicBlock) (by *Lin, ok bool) {
	if w.flags && gint(st, w.flag(h)) == 1 || !w.flags && w.eaten(st, h) {
		return nil, true
	}
	for b := range fi.loops[h] {
		if in := rangeOver(fi.loops[h], b); in && b.Dominates(from) {
			return nil, true
		}
		for _, t := range w.tests(fi.loops[h], b) {
			if !b.Dominates(from) {
				continue
			}
			if d := w.nearer(st, fi, from, h, b, t); d != nil {
				if w.grow == nil || !w.announced(st, *d) {
					return d, true
				}
				by = d
			}
		}
	}
	return by, by != nil
}

// eaten: some reader advanced, and none went back.
func (w *progress) eaten(st *State, h *ssa.BasicBlock) bool {
	some := false
	now := w.inputs(st)
	for k, c := range w.marks[h] {
		old, ok := st.fr.regs[c].(VInt)
		l, ok2 := now[k]
		if !ok || !ok2 {
			continue
		}
		d := st.norm(l.sub(old.L))
		switch {
		case st.upper(d) <= -1:
			some = true
		case st.upper(d) > 0 && !strings.HasSuffix(k, "buffer"):
			return false
		}
	}
	return some
}

// rangeOver: the loop is left when a map or text has no more entries.
func rangeOver(body map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
		return false
	}
	x, ok := f.Cond.(*ssa.Extract)
	if !ok || x.Index != 0 {
		return false
	}
	n, ok := x.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := n.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	return !body[rg.Block()]
}

// nearer: the difference which the test compares moves towards the exit. The result is how far the exit is.
func (w *progress) nearer(st *State, fi *fnInfo, from, h, b *ssa.BasicBlock, t *ssa.BinOp) *Lin {
	body := fi.loops[h]
	x, ok1 := w.reg(st, t.X)
	y, ok2 := w.reg(st, t.Y)
	nx, ok3 := w.next(st, body, from, h, t.X, 0)
	ny, ok4 := w.next(st, body, from, h, t.Y, 0)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return nil
	}
	now, then := st.norm(y.sub(x)), st.norm(ny.sub(nx))
	d := st.norm(then.sub(now))
	switch keepGoing(body, b, t) {
	case token.LSS, token.LEQ:
		if st.upper(d) <= -1 {
			return &now
		}
	case token.GTR, token.GEQ:
		if st.lower(d) >= 1 {
			now = now.scale(-1)
			return &now
		}
	case token.NEQ:
		if d.isC() && d.C == -1 && st.lower(now) >= 0 {
			return &now
		}
		if d.isC() && d.C == 1 && st.upper(now) <= 0 {
			now = now.scale(-1)
			return &now
		}
	}
	return nil
}

func (w *progress) reg(st *State, v ssa.Value) (Lin, bool) {
	if c, ok := v.(*ssa.Const); ok {
		x, ok := w.e.constVal(c).(VInt)
		return x.L, ok
	}
	x, ok := st.fr.regs[v]
	if !ok {
		return Lin{}, false
	}
	i, ok := st.nv(x).(VInt)
	return i.L, ok
}

// next is what a value will be in the next turn of the loop.
func (w *progress) next(st *State, body map[*ssa.BasicBlock]bool, from, h *ssa.BasicBlock, v ssa.Value, depth int) (Lin, bool) {
	x := w.nextV(st, body, from, h, v, depth)
	if x == nil {
		return Lin{}, false
	}
	i, ok := st.nv(x).(VInt)
	return i.L, ok
}

func (w *progress) nextV(st *State, body map[*ssa.BasicBlock]bool, from, h *ssa.BasicBlock, v ssa.Value, depth int) Val {
	if depth > 8 {
		return nil
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !body[in.Block()] {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function:
			return st.get(v)
		}
		if x, ok := st.fr.regs[v]; ok {
			return st.nv(x)
		}
		return nil
	}
	sub := func(o ssa.Value) Val { return w.nextV(st, body, from, h, o, depth+1) }
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() != h {
			return nil
		}
		for i, p := range h.Preds {
			if p == from {
				if y, ok := st.fr.regs[x.Edges[i]]; ok {
					return st.nv(y)
				}
				if c, ok := x.Edges[i].(*ssa.Const); ok {
					return st.get(c)
				}
			}
		}
	case *ssa.BinOp:
		a, b := sub(x.X), sub(x.Y)
		ai, ok1 := a.(VInt)
		bi, ok2 := b.(VInt)
		if !ok1 || !ok2 {
			return nil
		}
		switch x.Op {
		case token.ADD:
			return VInt{st.norm(ai.L.add(bi.L))}
		case token.SUB:
			return VInt{st.norm(ai.L.sub(bi.L))}
		}
	case *ssa.Convert:
		if isIntT(x.X.Type()) && isIntT(x.Type()) && intBits(x.Type()) >= intBits(x.X.Type()) {
			return sub(x.X)
		}
	case *ssa.ChangeType:
		return sub(x.X)
	case *ssa.FieldAddr:
		if p, ok := st.ptr(orNil(sub(x.X))); ok {
			f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
			return VPtr{p.O, p.P + "." + f.Name()}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if p, ok := st.ptr(orNil(sub(x.X))); ok {
				return st.nv(st.load(p, x.Type()))
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := sub(x.Call.Args[0]); a != nil {
				switch x.Call.Args[0].Type().Underlying().(type) {
				case *types.Slice, *types.Basic:
					return VInt{st.norm(st.lenOf(a))}
				}
			}
		}
	}
	return nil
}

func orNil(v Val) Val {
	if v == nil {
		return VNil{}
	}
	return v
}

// report makes the obligations of the loops which were seen.
func (w *progress) report() {
	if w.grow != nil {
		return // C02 looks at that
	}
	var ns []string
	for n := range w.seen {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		pos := ""
		if w.where[n].IsValid() {
			pos = w.r.p.posAt(w.where[n])
		}
		w.r.oblige("progress", n, pos, w.bad[n] == "", w.bad[n])
	}
}

func (r *Run) c02() {
	r.rule("progress: every way back to the start of a loop has consumed input, or has come nearer to the exit test of the loop")
	r.rule("bounded-recursion: where a decoding function can reach itself again, an integer argument moves towards a constant bound which is tested in between")
	r.rule("consumes: an operation of the reader which is taken to consume input consumes at least one byte whenever it succeeds")
	r.rule("unknown-field: an object with an unknown field in it is refused, or decoded as without it")
	for _, a := range decodeAnchors {
		r.need(a)
	}
	again := map[again1]bool{}
	eats := r.consumers(func(e *Engine) *progress { return r.watchLoops(e, false) }, again)
	for _, n := range []string{"ReadByte", "ReadBoolean", "ReadOID", "ReadLength", "ReadSequenceStart", "ReadInt", "ReadInt64", "ReadString", "ReadBitString", "ReadOctetString", "ReadReal"} {
		if f := r.need("asn1.ASNReader." + n); f != nil {
			r.oblige("consumes", r.p.short(f), r.at(f), eats[f], "it may succeed without having consumed anything")
		}
	}
	r.frameLoops(func(e *Engine) *progress { return r.watchLoops(e, false) }, again)
	r.decoderLoops(eats, func(e *Engine) *progress { return r.watchLoops(e, true) }, again)
	r.unknownFields()
}

// consumers runs the operations of the BER reader on unknown bytes, and tells which of them consume something whenever they succeed.
func (r *Run) consumers(watch func(e *Engine) *progress, again map[again1]bool) map[*ssa.Function]bool {
	eats := map[*ssa.Function]bool{}
	for _, f := range r.readers() {
		e := r.engine()
		w := watch(e)
		r.boundRecursion(e, again)
		if r.guard(r.p.short(f), e, func() {
			st := e.start()
			args := e.freshArgs(f)
			m := w.touch(st, f, args)
			eats[f] = len(m) > 0
			for _, x := range e.call(st, f, args) {
				err, has := errOf(e, f.Signature, x.res)
				if has && x.st.nilness(err) == 2 {
					continue
				}
				now, less := w.inputs(x.st), false
				for k, l := range m {
					if l2, ok := now[k]; ok && x.st.upper(x.st.norm(l2.sub(l))) <= -1 {
						less = true
					}
				}
				eats[f] = eats[f] && less
			}
		}) {
			w.report()
		}
	}
	return eats
}

// frameLoops runs the S101 decoder.
func (r *Run) frameLoops(watch func(e *Engine) *progress, again map[again1]bool) {
	for _, n := range []string{"socket.S101Decoder.DecodeBuffer", "socket.S101Decoder.HandleFrame", "socket.S101Decoder.HandleEmberFrame", "socket.ValidateFrame", "socket.CalculateCRC", "socket.EmberFrameHeader.Read"} {
		f := r.need(n)
		if f == nil {
			continue
		}
		var w *progress
		if r.anyFrames(f, func(e *Engine, s *s101) {
			w = watch(e)
			r.boundRecursion(e, again)
		}, nil) && w != nil {
			w.report()
		}
	}
}

// decoderLoops runs the Ember+ decoders on a reader which may do anything.
func (r *Run) decoderLoops(eats map[*ssa.Function]bool, watch func(e *Engine) *progress, again map[again1]bool) {
	eatsDec := map[*ssa.Function]bool{} // decoders which always consume something when they succeed
	all := r.decoders(false)
	g := map[*ssa.Function]map[*ssa.Function]bool{}
	watched := func(e *Engine, m *anyReader) *progress {
		w := watch(e)
		m.consume = func(st *State, cc *CallCtx, name string) {
			if eats[cc.Fn] || eatsDec[cc.Fn] {
				w.consumed(st)
				st.g["ate"] = intV(1)
			}
		}
		return w
	}
	run := func(f *ssa.Function, report bool) {
		var w *progress
		g[f] = map[*ssa.Function]bool{}
		ok := r.anyDecoder(f, func(e *Engine, m *anyReader) {
			w = watched(e, m)
			r.boundRecursion(e, again)
			m.onNested = func(h *ssa.Function) { g[f][h] = true }
		}, func(e *Engine, ex []Exit) {
			eats := len(ex) > 0
			for _, x := range ex {
				if err, has := errOf(e, f.Signature, x.res); has && x.st.nilness(err) == 2 {
					continue
				}
				eats = eats && gint(x.st, "ate") == 1
			}
			eatsDec[f] = eatsDec[f] || eats
		})
		if report && ok {
			w.report()
		}
	}
	heard := r.unheard()
	for n := -1; n != len(eatsDec); {
		n = len(eatsDec)
		for _, f := range all {
			if !eatsDec[f] {
				run(f, false)
			}
			if !eatsDec[f] {
				delete(eatsDec, f)
			}
		}
	}
	heard()
	for _, f := range all {
		run(f, true)
	}
	r.recursive(all, g, again, func(e *Engine, m *anyReader, f *ssa.Function, name string) func() {
		return watched(e, m).report
	})
}

// posAt is a position as file and line.
func (p *Prog) posAt(at token.Pos) string {
	x := p.fset.Position(at)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, p.root+"/"), x.Line)
}

// touch brings the byte readers of arguments into being, and returns how much they hold.
func (w *progress) touch(st *State, f *ssa.Function, args []Val) map[string]Lin {
	for i, a := range args {
		pt, isP := f.Params[i].Type().Underlying().(*types.Pointer)
		if !isP {
			continue
		}
		p, ok := st.ptr(a)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Type().String() == "*bytes.Reader" { // even when it was not yet looked at
				if q, ok := st.ptr(st.load(VPtr{p.O, p.P + "." + s.Field(i).Name()}, s.Field(i).Type())); ok {
					_, pos, _ := st.rdLeft(q)
					st.setAttr(q, "#pos", VInt{pos})
				}
			}
		}
	}
	return w.inputs(st)
}

// unheard makes what is found from here on go unreported, until the returned function is called.
func (r *Run) unheard() func() {
	order, finds, obl, counts := r.order, r.finds, r.obl, r.counts
	r.finds, r.obl, r.counts = map[string]Finding{}, map[string]bool{}, map[string]int{}
	return func() { r.order, r.finds, r.obl, r.counts = order, finds, obl, counts }
}

// unknownFields: a field which nobody knows, in each set of each object.
func (r *Run) unknownFields() {
	field := []tok{{kind: "S", tag: 0xbd}, {kind: "S", tag: 0x30}, {kind: "int", tag: 2, v: intV(7)}, {kind: "E"}, {kind: "int", tag: 2, v: intV(8)}, {kind: "E"}}
	for _, ks := range [][]kind{r.leafKinds(), r.elementKinds()} {
		for _, k := range ks {
			k := k
			if len(k.builds) == 0 {
				continue
			}
			b := k.builds[0]
			what := strings.TrimSpace(k.name + " " + b.name)
			pos := r.p.fpos(k.name + ".Encode")
			r.paths(what, func(m *tm) {
				st, x := b.f(m, m.e.start())
				m.e.roots = append(m.e.roots, x)
				w := m.writer(st)
				for _, q := range k.enc(m, st, x, w) {
					toks := m.toks(q.st, w)
					for i, t := range toks {
						if t.kind != "S" {
							continue
						}
						for _, at := range []int{i + 1, itemEnd(toks, i) - 1} {
							in := append(append(append([]tok(nil), toks[:at]...), field...), toks[at:]...)
							s := q.st.clone()
							rd := m.reader(s, withForm(in, at%2))
							for _, y := range k.dec(m, s, rd) {
								got, err := m.outcome(y)
								why := ""
								if y.st.nilness(err) != 2 {
									why = "it is neither refused nor decoded"
									if gp, ok := got.(VPtr); ok && y.st.nilness(err) == 1 {
										m.e.roots = append(m.e.roots, gp)
										w2 := m.writer(y.st)
										for _, z := range k.enc(m, y.st, gp, w2) {
											why = m.sameToks(z.st, toks, m.toks(z.st, w2))
										}
									}
								}
								r.oblige("unknown-field", what, pos, why == "", fmt.Sprintf("an unknown field%s is not skipped as a whole: %s", path(in, at), why))
							}
						}
					}
				}
			})
		}
	}
}
