package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = check{run: (*Run).c03, expl: "Every allocation whose size is not constant, and every loop which adds to a collection, which is reached while decoding unknown input - by the BER reader on unknown bytes, by the Ember+ decoders on a reader which yields any values, by the S101 decoder on unknown bytes in any state: its size is bounded by the bytes which are left in some reader or buffer, or depends on the sizes of what is held already and not on numbers which were received."}
}

const smallSize = 4096

// held are the symbols which stand for sizes of what exists.
var held = map[string]bool{"len": true, "maplen": true, "cap": true, "runes": true, "strpos": true, "copied": true, "listlen": true, "nread": true, "nwritten": true, "segs": true, "attr": true, "Len": true, "buflen": true, "spare": true}

// announced: the number is not bounded by anything but what a message says.
func (w *progress) announced(st *State, n Lin) bool {
	n = st.norm(n)
	if st.upper(n) <= smallSize {
		return false
	}
	if !w.flags {
		for _, l := range w.inputs(st) {
			if st.upper(st.norm(n.sub(l))) <= 64 {
				return false
			}
		}
	}
	seen := map[SymID]bool{}
	var told func(s SymID) bool
	told = func(s SymID) bool {
		if seen[s] {
			return false
		}
		seen[s] = true
		m := w.e.syms[s]
		if held[m.Name] || w.sizes[s] {
			return false
		}
		up := func(ss []SymID) bool {
			for _, x := range ss {
				if told(x) {
					return true
				}
			}
			return false
		}
		if m.Name == "join" {
			return up(m.From)
		}
		if m.Op != "" && len(m.Deps) > 0 {
			return up(m.Deps)
		}
		return true
	}
	for _, t := range n.T {
		if told(t.S) {
			return true
		}
	}
	return false
}

// watchMemory looks at allocations and at loops which add to what is held.
func (r *Run) watchMemory(e *Engine, flags bool) *progress {
	w := r.watchLoops(e, flags)
	w.sizes = map[SymID]bool{}
	alloc := func(st *State, in ssa.Instruction, n Lin, what string) {
		if n.isC() && n.C <= smallSize {
			return
		}
		bad := w.announced(st, n)
		if !bad {
			for _, t := range n.T {
				w.sizes[t.S] = true // of something which is held from now on
			}
		}
		r.oblige("bounded-allocation", e.exported(), r.p.pos(in), !bad, fmt.Sprintf("%s of a size which a message announces is not bounded by the bytes received; calls %s", what, e.stackText()))
	}
	e.onMake = func(st *State, in ssa.Instruction, t types.Type, n Lin) {
		what := "memory"
		if t != nil {
			what = "a " + types.TypeString(t, func(p *types.Package) string { return p.Name() })
		}
		alloc(st, in, n, what)
	}
	w.grow = func(loop string, pos token.Pos, st *State, l Lin) {
		r.oblige("bounded-growth", loop, r.p.posAt(pos), !w.announced(st, l), "what it adds in each turn is not bounded by the bytes received: the number of turns is announced by the message")
	}
	e.onAppend = func(st *State, in ssa.Instruction, dst, src Val) {
		if l := st.lenOf(src); !l.isC() || l.C != 0 {
			w.grew(st)
		}
	}
	e.onMap = func(st *State, in ssa.Instruction, m Val, k, v Val, op string) {
		if op == "set" {
			w.grew(st)
		}
	}
	e.onBuf = func(st *State, p VPtr, old, add []Seg) {
		if len(add) > 0 {
			w.grew(st)
		}
	}
	call := e.onCall
	e.onCall = func(st *State, cc *CallCtx) ([]Exit, bool) {
		n := cc.Name
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		switch n {
		case "strings.Repeat", "bytes.Repeat":
			c, l := st.norm(st.intOf(cc.Args[1])), st.lenOf(cc.Args[0])
			if l.isC() {
				alloc(st, cc.Site, c.scale(l.C), n)
			} else if c.isC() {
				alloc(st, cc.Site, l.scale(c.C), n)
			} else {
				alloc(st, cc.Site, c, n)
			}
		case "slices.Grow", "(*strings.Builder).Grow":
			alloc(st, cc.Site, st.norm(st.intOf(cc.Args[1])), n)
		case "bufio.NewReaderSize", "bufio.NewWriterSize":
			alloc(st, cc.Site, st.norm(st.intOf(cc.Args[1])), n)
		}
		if call != nil {
			return call(st, cc)
		}
		return nil, false
	}
	return w
}

func (r *Run) c03() {
	r.rule("bounded-allocation: the size of an allocation is a small constant, or at most the bytes which are left in a reader or buffer, or a sum of sizes of what is held")
	r.rule("bounded-growth: a loop which adds to a collection consumes input in each turn, or runs as often as something which is held is long")
	for _, a := range decodeAnchors {
		r.need(a)
	}
	again := map[again1]bool{}
	eats := r.consumers(func(e *Engine) *progress { return r.watchMemory(e, false) }, again)
	r.frameLoops(func(e *Engine) *progress { return r.watchMemory(e, false) }, again)
	r.decoderLoops(eats, func(e *Engine) *progress { return r.watchMemory(e, true) }, again)
}
