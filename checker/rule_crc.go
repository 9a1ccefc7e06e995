package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var c16 = types.Typ[types.Uint16]

const crcPoly, crcInit, crcGood = 0x8408, 0xFFFF, 0xF0B8

func crcStep(c, b bitvec) bitvec {
	x := c.xor(b)
	for i := 0; i < 8; i++ {
		l := x[0]
		x = x.shr(1)
		for j := 0; j < 16; j++ {
			if crcPoly>>uint(j)&1 == 1 {
				x[j] ^= l
			}
		}
	}
	return x
}

type bitLeaves struct {
	e    *Engine
	at   map[SymID]int
	n    int
	only map[SymID]bool
}

func (b *bitLeaves) leaf(s SymID) (bitvec, bool) {
	m := b.e.syms[s]
	if !b.only[s] {
		switch m.Op {
		case "^", "&", "|", ">>", "<<", "tab", "conv", "wrap", "trunc":
			return bitvec{}, false
		}
	}
	w := 16
	if m.Lo >= 0 && m.Hi <= 255 {
		w = 8
	} else if !b.only[s] && (m.Lo < 0 || m.Hi > 65535) {
		return bitvec{}, false
	}
	o, ok := b.at[s]
	if !ok {
		if b.n+w > 62 {
			return bitvec{}, false
		}
		o = b.n
		b.at[s] = o
		b.n += w
	}
	var v bitvec
	for i := 0; i < w; i++ {
		v[i] = 1 << uint(o+i)
	}
	return v, true
}

// crcFunc shows that a function folds the CRC over the bytes of its reader, escaped ones unescaped if esc is set.
func (r *Run) crcFunc(f *ssa.Function, esc bool, rule string) bool {
	name := r.p.short(f)
	e := r.engine()
	e.cap, e.exitCap = 16, 16
	type hv struct{ v Val }
	heads := map[*ssa.Phi][]Val{}
	bad := map[*ssa.Phi]string{}
	steps := map[*ssa.Phi]int{}
	var rd Val
	key := func(p *ssa.Phi, v Val) bool {
		for _, o := range heads[p] {
			if vkey(o) == vkey(v) {
				return true
			}
		}
		return false
	}
	phis := func(h *ssa.BasicBlock) (out []*ssa.Phi) {
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isIntT(p.Type()) && !isBoolT(p.Type()) {
				out = append(out, p)
			}
		}
		return
	}
	e.onPass = func(st *State, fn *ssa.Function, h *ssa.BasicBlock) {
		if p, ok := st.ptr(rd); ok {
			_, pos, _ := st.rdLeft(p)
			st.g["crcpos"] = VInt{pos}
		}
		for _, p := range phis(h) {
			v := st.nv(st.fr.regs[p])
			if !key(p, v) {
				heads[p] = append(heads[p], v)
			}
		}
	}
	e.onHead = func(st *State, fn *ssa.Function, h *ssa.BasicBlock, entering bool) {
		if !entering {
			return
		}
		for _, p := range phis(h) {
			if v, ok := st.fr.regs[p]; ok {
				if c, ok := constOf(st.nv(v)); !ok || c != crcInit {
					bad[p] = "the initial value is not 0xFFFF"
				}
			}
		}
	}
	e.onBack = func(st *State, fn *ssa.Function, h *ssa.BasicBlock) {
		start := st.g["crcpos"]
		delete(st.g, "crcpos")
		p, ok := st.ptr(rd)
		if !ok {
			return
		}
		all, pos, _ := st.rdLeft(p)
		raw := st.norm(st.intOf(st.segAt(all, st.norm(pos.addC(-1)), byteT)))
		var b Lin
		if esc {
			from, ok := start.(VInt)
			if !ok {
				return
			}
			first := st.norm(st.intOf(st.segAt(all, st.norm(from.L), byteT)))
			if d := st.norm(pos.sub(from.L)); d.isC() && d.C == 2 && first.isC() && first.C == 0xFD {
				b = st.norm(st.intOf(e.arith(st, "^", byteT, raw, lc(0x20))))
			} else if raw.isC() && raw.C == 0xFD {
				b = lc(0x20) // an escape byte at the very end
			} else {
				b = raw
			}
		} else {
			b = raw
		}
		for _, ph := range phis(h) {
			nv, ok := st.fr.regs[ph]
			if !ok {
				continue
			}
			steps[ph]++
			nv = st.deepNorm(st.nv(nv))
			match := false
			for _, old := range heads[ph] {
				for _, asLeaf := range []bool{true, false} {
					lv := &bitLeaves{e: e, at: map[SymID]int{}, only: map[SymID]bool{}}
					if i, ok := old.(VInt); ok && len(i.L.T) == 1 {
						lv.only[i.L.T[0].S] = asLeaf
					}
					ob, ok1 := e.bitEval(st.deepNorm(st.nv(old)), lv.leaf)
					bb, ok2 := e.bitEval(VInt{b}, lv.leaf)
					nb, ok3 := e.bitEval(nv, lv.leaf)
					if ok1 && ok2 && ok3 && crcStep(ob, bb) == nb {
						match = true
					}
				}
			}
			if !match {
				bad[ph] = ("a step does not fold the next byte into the checksum")
			}
		}
	}
	ok := false
	r.guard(name, e, func() {
		st := e.start()
		args := e.freshArgs(f)
		rd = args[0]
		exits := e.call(st, f, args)
		// the checksum is the phi which the result is always a value of
		why := "no loop over the bytes was recognised"
		for ph := range heads {
			all := len(exits) > 0 && steps[ph] > 0
			for _, x := range exits {
				if !key(ph, x.st.nv(x.res)) {
					all = false
				}
			}
			if !all {
				continue
			}
			if bad[ph] == "" {
				ok = true
			} else {
				why = bad[ph]
			}
		}
		// all bytes are consumed
		for _, x := range exits {
			if p, okp := x.st.ptr(rd); okp {
				_, _, left := x.st.rdLeft(p)
				if x.st.upper(left) > 0 {
					ok = false
					why = "bytes are left out of the checksum"
				}
			}
		}
		r.count("crc_steps", len(heads))
		r.oblige(rule, name, r.at(f), ok, why)
	})
	return ok
}

// validates: ValidateFrame is true exactly for the residue of a good checksum.
func (r *Run) validateFrame() bool {
	vf, cf := r.need("socket.ValidateFrame"), r.need("socket.CalculateCRC")
	if vf == nil || cf == nil {
		return false
	}
	e := r.engine()
	e.exitCap = 16
	var crc Lin
	calls := 0
	var arg Val
	e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
		if c.Fn == cf {
			calls++
			if vkey(st.nv(c.Args[0])) != vkey(st.nv(arg)) {
				calls += 100
			}
			return ret(st, VInt{crc}), true
		}
		return nil, false
	}
	good := true
	r.guard("socket.ValidateFrame", e, func() {
		st := e.start()
		crc = e.newInt(types.Typ[types.Uint16], "crc", 0, 65535)
		args := e.freshArgs(vf)
		arg = args[0]
		for _, x := range e.call(st, vf, args) {
			for _, truth := range []bool{true, false} {
				n := x.st.clone()
				if !n.assume(x.res, truth) {
					continue
				}
				l := n.norm(crc)
				if truth && !(l.isC() && l.C == crcGood) {
					good = false
				}
				if !truth && n.mayEQ0(crc.addC(-crcGood)) {
					good = false
				}
			}
		}
		r.oblige("validate", "socket.ValidateFrame", r.at(vf), good && calls == 1, "a frame is accepted or refused other than by its checksum giving 0xF0B8")
	})
	return good && calls == 1
}
