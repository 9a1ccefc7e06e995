package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All values are immutable.
type Val interface{}

// VInt is an integer or a boolean (0 or 1).
type VInt struct{ L Lin }

// VCond is a comparison not decided yet.
type VCond struct {
	Op   string // == != < <= (others are normalised to these)
	X, Y Val
}
type VNil struct{}

// VPtr points at a cell of an object. Maps and channels are pointers to a whole object.
type VPtr struct {
	O ObjID
	P string
}

// VSym is an unknown value which is not an integer.
type VSym struct{ S SymID }
type VIface struct {
	T types.Type
	V Val
}
type VSlice struct {
	O             ObjID
	P             string // path of the array in the object
	Off, Len, Cap Lin
}
type VStr struct{ S string }
type VFlt struct{ F float64 }
type VFunc struct {
	F *ssa.Function
	B []Val
}
type VBuiltin struct{ N string }
type VTuple []Val

// VAgg is a struct or array value: explicit cells, and a default for the others.
type VAgg struct {
	T     types.Type
	Cells map[string]Val
	Lazy  bool // missing cells are unknown (named after Org), else zero
	Org   string
}

// VIter is the state of a range over a map or string.
type VIter struct {
	X Val
	N int
	K []string // the keys of a map when the range began
}

// Seg is a piece of a byte sequence.
type Seg struct {
	Kind   int // 0 one byte, 1 part of an array, 2 unknown bytes
	B      Lin
	Arr    *Obj
	P      string
	Off    Lin
	Len    Lin
	Lo, Hi int64 // bounds of the bytes of kind 2
}

const (
	segByte = iota
	segArr
	segAny
)

type VSegs struct{ S []Seg }

func (s Seg) length() Lin {
	if s.Kind == segByte {
		return lc(1)
	}
	return s.Len
}

func segsLen(s []Seg) Lin {
	l := lc(0)
	for _, x := range s {
		l = l.add(x.length())
	}
	return l
}

func (s Seg) key() string {
	switch s.Kind {
	case segByte:
		return "b(" + s.B.String() + ")"
	case segArr:
		return fmt.Sprintf("a(%s%s,%s,%s)", s.Arr.key(), s.P, s.Off, s.Len)
	}
	return fmt.Sprintf("?(%s,%d,%d)", s.Len, s.Lo, s.Hi)
}

// Custom is a value owned by a rule.
type Custom interface {
	Key() string
	Join(o Custom, j *joiner) (Custom, bool)
}

type ObjID int

// Obj is an abstract object: cells by path. A missing cell is zero, unknown, or taken from Base.
type Obj struct {
	id    ObjID
	T     types.Type
	Cells map[string]Val
	Lazy  bool
	Org   string // names the unknown cells of a lazy object
	Base  []Seg  // content of an array (Cells override)
	Fuzzy map[string]bool
	Site  string
	Multi bool // stands for several objects
	own   *int
}

func (o *Obj) key() string { return fmt.Sprintf("o%d", o.id) }

func (o *Obj) clone(own *int) *Obj {
	n := *o
	n.own = own
	n.Cells = make(map[string]Val, len(o.Cells))
	for k, v := range o.Cells {
		n.Cells[k] = v
	}
	if o.Fuzzy != nil {
		n.Fuzzy = map[string]bool{}
		for k := range o.Fuzzy {
			n.Fuzzy[k] = true
		}
	}
	return &n
}

func boolV(b bool) Val {
	if b {
		return VInt{lc(1)}
	}
	return VInt{lc(0)}
}
func intV(c int64) Val { return VInt{lc(c)} }

func constOf(v Val) (int64, bool) {
	if i, ok := v.(VInt); ok && i.L.isC() {
		return i.L.C, true
	}
	return 0, false
}

// vkey is a canonical text of a value.
func vkey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case VInt:
		return x.L.String()
	case VCond:
		return "(" + vkey(x.X) + x.Op + vkey(x.Y) + ")"
	case VNil:
		return "nil"
	case VPtr:
		return fmt.Sprintf("&o%d%s", x.O, x.P)
	case VSym:
		return fmt.Sprintf("v%d", x.S)
	case VIface:
		return "i<" + x.T.String() + ">" + vkey(x.V)
	case VSlice:
		return fmt.Sprintf("sl(o%d%s,%s,%s)", x.O, x.P, x.Off, x.Len)
	case VStr:
		return fmt.Sprintf("%q", x.S)
	case VFlt:
		return fmt.Sprintf("f%v", x.F)
	case VFunc:
		s := "fn:" + x.F.String()
		for _, b := range x.B {
			s += "," + vkey(b)
		}
		return s
	case VBuiltin:
		return "bi:" + x.N
	case VTuple:
		var p []string
		for _, e := range x {
			p = append(p, vkey(e))
		}
		return "(" + strings.Join(p, ";") + ")"
	case VAgg:
		ks := make([]string, 0, len(x.Cells))
		for k := range x.Cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		fmt.Fprintf(&sb, "{%v %s|", x.Lazy, x.Org)
		for _, k := range ks {
			sb.WriteString(k + "=" + vkey(x.Cells[k]) + ",")
		}
		sb.WriteString("}")
		return sb.String()
	case VIter:
		return fmt.Sprintf("it(%s,%d)", vkey(x.X), x.N)
	case VSegs:
		var p []string
		for _, s := range x.S {
			p = append(p, s.key())
		}
		return "segs[" + strings.Join(p, " ") + "]"
	case Custom:
		return x.Key()
	}
	return fmt.Sprintf("?%T", v)
}

// SymMeta describes a symbol; it does not depend on the state.
type SymMeta struct {
	T      types.Type
	Lo, Hi int64
	Op     string
	Args   []Val
	Deps   []SymID // all symbols the definition depends on
	From   []SymID // the symbols of what was joined
	Objs   []ObjID // the objects of what was joined
	Vals   []int64 // the possible values, if few
	Name   string
	enum   bool
}

func intRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, 1
	case types.Int8:
		return -128, 127
	case types.Uint8:
		return 0, 255
	case types.Int16:
		return -32768, 32767
	case types.Uint16:
		return 0, 65535
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	}
	return -inf, inf
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// opaqueStruct: a struct type of the standard library is one leaf with attributes.
func (e *Engine) opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return e.opaqueStruct(types.Unalias(a))
		}
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if e.lists && p != nil && p.Path() == "container/list" && n.Obj().Name() == "Element" {
		return false
	}
	return p == nil || !e.isRepoPkg(p.Path())
}

func isAggT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// leaves lists the leaf paths of a type.
func (e *Engine) leaves(t types.Type, f func(path string, t types.Type)) {
	e.leaves1(t, "", f)
}
func (e *Engine) leaves1(t types.Type, p string, f func(string, types.Type)) {
	if e.opaqueStruct(t) {
		f(p, t)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.leaves1(u.Field(i).Type(), p+"."+u.Field(i).Name(), f)
		}
	case *types.Array:
		n := u.Len()
		if n > 64 {
			n = 0
		}
		for i := int64(0); i < n; i++ {
			e.leaves1(u.Elem(), fmt.Sprintf("%s[%d]", p, i), f)
		}
	default:
		f(p, t)
	}
}
