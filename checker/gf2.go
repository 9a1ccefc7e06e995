package main

import "fmt"

// bits is a value whose bits are affine functions over GF(2) of input bits (numbered 0..62; bit 63 is the constant one).
type bitvec [64]uint64

const bitOne = uint64(1) << 63

func bitConst(c int64) bitvec {
	var b bitvec
	for i := 0; i < 64; i++ {
		if uint64(c)>>uint(i)&1 == 1 {
			b[i] = bitOne
		}
	}
	return b
}

func (a bitvec) xor(b bitvec) bitvec {
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a bitvec) and(m int64) bitvec {
	for i := range a {
		if uint64(m)>>uint(i)&1 == 0 {
			a[i] = 0
		}
	}
	return a
}
func (a bitvec) shr(k int) bitvec {
	var b bitvec
	for i := 0; i+k < 64; i++ {
		b[i] = a[i+k]
	}
	return b
}
func (a bitvec) shl(k int) bitvec {
	var b bitvec
	for i := 0; i+k < 64; i++ {
		b[i+k] = a[i]
	}
	return b
}

// bitEval evaluates the definition of a value over given leaves; false if it is not affine.
func (e *Engine) bitEval(v Val, leaf func(SymID) (bitvec, bool)) (bitvec, bool) {
	i, ok := v.(VInt)
	if !ok {
		return bitvec{}, false
	}
	l := i.L
	if l.isC() {
		return bitConst(l.C), true
	}
	sym := func(s SymID) (bitvec, bool) {
		if b, ok := leaf(s); ok {
			return b, true
		}
		m := e.syms[s]
		two := func() (a, b bitvec, ok bool) {
			if len(m.Args) != 2 {
				return
			}
			a, ok = e.bitEval(m.Args[0], leaf)
			if !ok {
				return
			}
			b, ok = e.bitEval(m.Args[1], leaf)
			return
		}
		arg := func(i int) (int64, bool) {
			if len(m.Args) != 2 {
				return 0, false
			}
			return constOf(m.Args[i])
		}
		cut := func(b bitvec) bitvec {
			if m.T != nil && isIntT(m.T) && intBits(m.T) < 64 && isUnsigned(m.T) {
				return b.and(int64(1)<<uint(intBits(m.T)) - 1)
			}
			return b
		}
		switch m.Op {
		case "^":
			a, b, ok := two()
			return cut(a.xor(b)), ok
		case "&":
			if c, ok := arg(1); ok {
				a, ok := e.bitEval(m.Args[0], leaf)
				return a.and(c), ok
			}
			if c, ok := arg(0); ok {
				a, ok := e.bitEval(m.Args[1], leaf)
				return a.and(c), ok
			}
		case "|":
			a, b, ok := two()
			if !ok {
				return a, false
			}
			for i := range a {
				if a[i] != 0 && b[i] != 0 {
					return a, false
				}
			}
			return a.xor(b), true
		case ">>", "<<":
			c, ok := arg(1)
			if !ok || c < 0 || c > 63 {
				return bitvec{}, false
			}
			a, ok := e.bitEval(m.Args[0], leaf)
			if m.Op == ">>" {
				return a.shr(int(c)), ok
			}
			return cut(a.shl(int(c))), ok
		case "tab":
			k, isK := m.Args[0].(VStr)
			if !isK {
				return bitvec{}, false
			}
			tab := e.tables[k.S]
			a, ok := e.bitEval(m.Args[1], leaf)
			if !ok || tab == nil {
				return a, false
			}
			n := 0
			for 1<<uint(n) < len(tab) {
				n++
			}
			for i := n; i < 64; i++ {
				if a[i] != 0 {
					return a, false
				}
			}
			if 1<<uint(n) != len(tab) {
				return a, false
			}
			// the table must be affine
			for x := range tab {
				w := tab[0]
				for i := 0; i < n; i++ {
					if x>>uint(i)&1 == 1 {
						w ^= tab[1<<uint(i)] ^ tab[0]
					}
				}
				if w != tab[x] {
					return a, false
				}
			}
			r := bitConst(tab[0])
			for i := 0; i < n; i++ {
				d := tab[1<<uint(i)] ^ tab[0]
				for j := 0; j < 64; j++ {
					if uint64(d)>>uint(j)&1 == 1 {
						r[j] ^= a[i]
					}
				}
			}
			return r, true
		case "conv", "wrap", "trunc":
			if len(m.Args) == 1 {
				a, ok := e.bitEval(m.Args[0], leaf)
				return cut(a), ok
			}
		}
		return bitvec{}, false
	}
	if len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 {
		return sym(l.T[0].S)
	}
	// a sum of parts with disjoint bits, or a complement c - x
	if len(l.T) == 1 && l.T[0].K == -1 {
		b, ok := sym(l.T[0].S)
		if !ok {
			return b, false
		}
		for i := range b {
			if b[i] != 0 && uint64(l.C)>>uint(i)&1 == 0 {
				return b, false
			}
		}
		return b.xor(bitConst(l.C)), true
	}
	r := bitConst(l.C)
	for _, t := range l.T {
		k := 0
		for k < 62 && int64(1)<<uint(k) != t.K {
			k++
		}
		if int64(1)<<uint(k) != t.K {
			return r, false
		}
		b, ok := sym(t.S)
		if !ok {
			return r, false
		}
		b = b.shl(k)
		for i := range b {
			if b[i] != 0 && r[i] != 0 {
				return r, false
			}
		}
		r = r.xor(b)
	}
	return r, true
}

func (e *Engine) explain(v Val, d int) string {
	i, ok := v.(VInt)
	if !ok || d > 6 {
		return vkey(v)
	}
	s := fmt.Sprint(i.L.C)
	for _, t := range i.L.T {
		m := e.syms[t.S]
		s += fmt.Sprintf("+%d*%s#%d(", t.K, m.Op+m.Name, t.S)
		for k, a := range m.Args {
			if k > 0 {
				s += ", "
			}
			if st, ok := a.(VStr); ok && len(st.S) > 20 {
				s += "T"
				continue
			}
			s += e.explain(a, d+1)
		}
		s += ")"
	}
	return s
}
