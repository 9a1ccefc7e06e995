package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Texts made of known parts are known.
func textModels(m map[string]Model) {
	known := func(e *Engine, st *State, v Val) ([]any, bool) {
		v = st.nv(v)
		if st.nilness(v) == 1 {
			return nil, true
		}
		s, ok := v.(VSlice)
		if !ok || !st.norm(s.Len).isC() || st.norm(s.Len).C > 64 {
			return nil, false
		}
		t := e.pathType(st.objs[s.O].T, s.P)
		at, ok := t.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		var out []any
		for i := int64(0); i < st.norm(s.Len).C; i++ {
			x := st.nv(st.load(VPtr{s.O, fmt.Sprintf("%s[%s]", s.P, e.linKey(st.norm(s.Off.addC(i))))}, at.Elem()))
			var dt types.Type
			if f, ok := x.(VIface); ok {
				dt, x = f.T, st.nv(f.V)
				if named, ok := dt.(*types.Named); ok && named.NumMethods() > 0 {
					return nil, false // it may have a text of its own
				}
			} else if b, ok := at.Elem().Underlying().(*types.Basic); ok {
				dt = b
			}
			b, ok := dt.(*types.Basic)
			if dt != nil && !ok {
				b, ok = dt.Underlying().(*types.Basic)
			}
			if !ok {
				return nil, false
			}
			switch x := x.(type) {
			case VStr:
				out = append(out, x.S)
			case VInt:
				c, ok := constOf(x)
				if !ok || b.Info()&types.IsInteger == 0 {
					return nil, false
				}
				if b.Kind() == types.Uint8 {
					out = append(out, uint8(c))
				} else {
					out = append(out, c)
				}
			default:
				return nil, false
			}
		}
		return out, true
	}
	m["fmt.Sprintf"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if f, ok := st.nv(c.Args[0]).(VStr); ok {
			if a, ok := known(e, st, c.Args[1]); ok {
				return ret(st, VStr{fmt.Sprintf(f.S, a...)})
			}
		}
		return e.unknownCall(st, c)
	}
	m["fmt.Sprint"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if a, ok := known(e, st, c.Args[0]); ok {
			return ret(st, VStr{fmt.Sprint(a...)})
		}
		return e.unknownCall(st, c)
	}
	m["strings.Join"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if sep, ok := st.nv(c.Args[1]).(VStr); ok {
			if a, ok := known(e, st, c.Args[0]); ok {
				var l []string
				for _, x := range a {
					s, ok := x.(string)
					if !ok {
						return e.unknownCall(st, c)
					}
					l = append(l, s)
				}
				return ret(st, VStr{strings.Join(l, sep.S)})
			}
		}
		return e.unknownCall(st, c)
	}
	m["strconv.Itoa"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		if n, ok := constOf(st.nv(c.Args[0])); ok {
			return ret(st, VStr{strconv.FormatInt(n, 10)})
		}
		return e.unknownCall(st, c)
	}
	m["strconv.FormatInt"] = func(e *Engine, st *State, c *CallCtx) []Exit {
		n, ok := constOf(st.nv(c.Args[0]))
		b, ok2 := constOf(st.nv(c.Args[1]))
		if ok && ok2 && b >= 2 && b <= 36 {
			return ret(st, VStr{strconv.FormatInt(n, int(b))})
		}
		return e.unknownCall(st, c)
	}
}
