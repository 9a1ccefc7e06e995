package main

import (
	"fmt"
	"sort"
	"strings"
)

// SymID names an unknown. Symbol 0 is the constant zero of the difference-bound domain.
type SymID int32

type Term struct {
	S SymID
	K int64
}

// Lin is an affine expression C + sum K_i * S_i, terms sorted by symbol, no zero coefficient.
type Lin struct {
	C int64
	T []Term
}

func lc(c int64) Lin    { return Lin{C: c} }
func ls(s SymID) Lin    { return Lin{T: []Term{{s, 1}}} }
func (a Lin) isC() bool { return len(a.T) == 0 }

func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{C: a.C * k, T: make([]Term, len(a.T))}
	for i, t := range a.T {
		r.T[i] = Term{t.S, t.K * k}
	}
	return r
}

func (a Lin) add(b Lin) Lin {
	r := Lin{C: a.C + b.C}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, b.T[j])
			j++
		default:
			if k := a.T[i].K + b.T[j].K; k != 0 {
				r.T = append(r.T, Term{a.T[i].S, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) sub(b Lin) Lin    { return a.add(b.scale(-1)) }
func (a Lin) addC(c int64) Lin { return Lin{C: a.C + c, T: a.T} }

func (a Lin) eq(b Lin) bool {
	if a.C != b.C || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (a Lin) String() string {
	if a.isC() {
		return fmt.Sprint(a.C)
	}
	var sb strings.Builder
	for i, t := range a.T {
		if i > 0 {
			sb.WriteByte('+')
		}
		if t.K != 1 {
			fmt.Fprintf(&sb, "%d*", t.K)
		}
		fmt.Fprintf(&sb, "s%d", t.S)
	}
	if a.C != 0 {
		fmt.Fprintf(&sb, "%+d", a.C)
	}
	return sb.String()
}

func (a Lin) norm() Lin {
	sort.Slice(a.T, func(i, j int) bool { return a.T[i].S < a.T[j].S })
	return a
}

const inf = int64(1) << 60

// Zone is a closed difference-bound matrix: m[i][j] bounds syms[i]-syms[j].
type Zone struct {
	syms []SymID
	idx  map[SymID]int
	m    []int64
	bad  bool
}

func newZone() *Zone {
	return &Zone{syms: []SymID{0}, idx: map[SymID]int{0: 0}, m: []int64{0}}
}

func (z *Zone) clone() *Zone {
	n := &Zone{syms: append([]SymID(nil), z.syms...), idx: make(map[SymID]int, len(z.idx)), m: append([]int64(nil), z.m...), bad: z.bad}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	return n
}

func (z *Zone) at(i, j int) int64 { return z.m[i*len(z.syms)+j] }

func (z *Zone) ensure(s SymID) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	n := len(z.syms)
	nm := make([]int64, (n+1)*(n+1))
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			switch {
			case i < n && j < n:
				nm[i*(n+1)+j] = z.m[i*n+j]
			case i == j:
				nm[i*(n+1)+j] = 0
			default:
				nm[i*(n+1)+j] = inf
			}
		}
	}
	z.m = nm
	z.syms = append(z.syms, s)
	z.idx[s] = n
	return n
}

// diff is the least known bound of x-y.
func (z *Zone) diff(x, y SymID) int64 {
	if x == y {
		return 0
	}
	i, ok := z.idx[x]
	j, ok2 := z.idx[y]
	if !ok || !ok2 {
		// an unknown symbol is unconstrained
		return inf
	}
	return z.at(i, j)
}

func (z *Zone) add(x, y SymID, c int64) {
	if x == y {
		if c < 0 {
			z.bad = true
		}
		return
	}
	if c >= inf {
		return
	}
	i, j := z.ensure(x), z.ensure(y)
	n := len(z.syms)
	if z.m[i*n+j] <= c {
		return
	}
	if z.m[j*n+i]+c < 0 {
		z.bad = true
		return
	}
	z.m[i*n+j] = c
	for u := 0; u < n; u++ {
		ui := z.m[u*n+i]
		if ui >= inf {
			continue
		}
		for v := 0; v < n; v++ {
			jv := z.m[j*n+v]
			if jv >= inf {
				continue
			}
			if d := ui + c + jv; d < z.m[u*n+v] {
				z.m[u*n+v] = d
			}
		}
	}
}

// keep projects the zone on the symbols wanted.
func (z *Zone) keep(want func(SymID) bool) *Zone {
	n := len(z.syms)
	var sel []int
	for i, s := range z.syms {
		if s == 0 || want(s) {
			sel = append(sel, i)
		}
	}
	if len(sel) == n {
		return z
	}
	r := &Zone{idx: make(map[SymID]int, len(sel)), m: make([]int64, len(sel)*len(sel)), bad: z.bad}
	for a, i := range sel {
		r.syms = append(r.syms, z.syms[i])
		r.idx[z.syms[i]] = a
		for b, j := range sel {
			r.m[a*len(sel)+b] = z.m[i*n+j]
		}
	}
	return r
}

// upper is an upper bound of a linear expression.
func (z *Zone) upper(a Lin) int64 {
	switch len(a.T) {
	case 0:
		return a.C
	case 1:
		t := a.T[0]
		var b int64
		if t.K > 0 {
			b = z.diff(t.S, 0)
			if b >= inf {
				return inf
			}
			return b*t.K + a.C
		}
		b = z.diff(0, t.S)
		if b >= inf {
			return inf
		}
		return b*(-t.K) + a.C
	}
	best := inf
	// split off every pair of opposite unit terms, or a single term
	for i := range a.T {
		if a.T[i].K == 1 {
			for j := range a.T {
				if a.T[j].K == -1 {
					d := z.diff(a.T[i].S, a.T[j].S)
					if d < inf {
						rest := without(a, i, j)
						if r := z.upper(rest); r < inf && r+d < best {
							best = r + d
						}
					}
				}
			}
		}
	}
	// all terms apart
	s := a.C
	for _, t := range a.T {
		u := z.upper(Lin{T: []Term{t}})
		if u >= inf {
			return best
		}
		s += u
	}
	if s < best {
		best = s
	}
	return best
}

func without(a Lin, i, j int) Lin {
	r := Lin{C: a.C}
	for k, t := range a.T {
		if k != i && k != j {
			r.T = append(r.T, t)
		}
	}
	return r
}

func (z *Zone) lower(a Lin) int64 {
	u := z.upper(a.scale(-1))
	if u >= inf {
		return -inf
	}
	return -u
}

// assumeLE adds a <= 0 as far as the domain can express it.
func (z *Zone) assumeLE(a Lin) {
	if z.lower(a) > 0 {
		z.bad = true
		return
	}
	switch len(a.T) {
	case 0:
	case 1:
		t := a.T[0]
		if t.K > 0 {
			z.add(t.S, 0, floorDiv(-a.C, t.K))
		} else {
			z.add(0, t.S, floorDiv(-a.C, -t.K))
		}
	case 2:
		if a.T[0].K == 1 && a.T[1].K == -1 {
			z.add(a.T[0].S, a.T[1].S, -a.C)
			return
		}
		if a.T[0].K == -1 && a.T[1].K == 1 {
			z.add(a.T[1].S, a.T[0].S, -a.C)
			return
		}
		fallthrough
	default:
		// bound every unit term by the extremes of the others
		for i, t := range a.T {
			if t.K != 1 && t.K != -1 {
				continue
			}
			rest := without(a, i, i)
			lo := z.lower(rest)
			if lo <= -inf {
				// try a difference with one other term
				for j, u := range rest.T {
					if u.K == -t.K {
						r2 := without(rest, j, j)
						l2 := z.lower(r2)
						if l2 > -inf {
							if t.K == 1 {
								z.add(t.S, u.S, -l2)
							} else {
								z.add(u.S, t.S, -l2)
							}
						}
					}
				}
				continue
			}
			if t.K == 1 {
				z.add(t.S, 0, -lo)
			} else {
				z.add(0, t.S, -lo)
			}
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
