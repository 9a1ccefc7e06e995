package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = check{run: (*Run).c17, expl: "Abstract interpretation of the console and null logger with the level held as a constant: for every defined level, set by the constructor and by SetLogLevel, every path through each message method is followed and must, respectively must not, reach an output call."}
}

func isOutput(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "log.", "(*log.", "(*os.File)", "(io.Writer)", "os.Stdout", "io.WriteString", "syscall.Write", "(*bufio."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return name == "print" || name == "println"
}

// constsOf lists the declared constants of a named type.
func (p *Prog) constOf(pkg, name string) (int64, bool) {
	sp := p.pkg(pkg)
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	if i, ok := c.Value.Value.ExactString(), true; ok {
		var n int64
		if _, err := fmt.Sscan(i, &n); err == nil {
			return n, true
		}
	}
	return 0, false
}

func (r *Run) c17() {
	r.rule("for each level L and message method of severity S (Error, Warn, Info, Debug): every path prints if S is at or above L in severity, and no path prints otherwise; a printing path passes the caller's message on; the null logger prints on no path; GetLogLevel returns the level given to the constructor or to SetLogLevel")
	lv := map[string]int64{}
	names := []string{"Error", "Warn", "Info", "Debug"}
	seen := map[int64]bool{}
	for _, n := range names {
		c, ok := r.p.constOf("logger", n+"Level")
		if !ok {
			r.fail("anchor", "logger."+n+"Level", "", "the level constant is gone")
			return
		}
		r.oblige("distinct-levels", n, "", !seen[c], "two levels have the same value")
		seen[c] = true
		lv[n] = c
	}
	sev := map[string]int{"Error": 0, "Warn": 1, "Info": 2, "Debug": 3, "Debugln": 3}
	cons, null := r.need("logger.NewConsoleLogger"), r.need("logger.NewNullLogger")
	lt := r.p.typ("logger.Logger")
	if cons == nil || null == nil || lt == nil {
		return
	}
	it := lt.Underlying().(*types.Interface)
	// make returns a logger in a start state
	type mk struct {
		name string
		st   *State
		lg   Val
	}
	for _, kind := range []string{"Console", "Null"} {
		for li, ln := range names {
			for _, how := range []string{"constructor", "SetLogLevel"} {
				if kind == "Null" && how == "constructor" {
					continue
				}
				e := r.engine()
				for i := 0; i < it.NumMethods(); i++ {
					delete(e.models, fmt.Sprintf("(%s).%s", typeKey(lt), it.Method(i).Name()))
				}
				var msgs []Val
				e.onCall = func(st *State, c *CallCtx) ([]Exit, bool) {
					if isOutput(c.Name) {
						st.g["printed"] = intV(1)
						ok := false
						for _, a := range c.Args {
							for _, m := range msgs {
								if st.holds(a, m, 0) {
									ok = true
								}
							}
						}
						if !ok {
							st.g["other"] = intV(1)
						}
						return e.results(st, c.Sig, c.Name, false), true
					}
					return nil, false
				}
				r.guard(kind+"Logger", e, func() {
					st := e.start()
					var objs []mk
					build := cons
					var args []Val
					if kind == "Null" {
						build = null
					} else {
						l := lv[ln]
						if how == "SetLogLevel" {
							l = lv[names[(li+1)%4]]
						}
						args = []Val{intV(l)}
					}
					for _, x := range e.call(st, build, args) {
						objs = append(objs, mk{"", x.st, x.res})
					}
					if how == "SetLogLevel" {
						var next []mk
						for _, o := range objs {
							for _, x := range r.invokeMethod(e, o.st, o.lg, "SetLogLevel", []Val{intV(lv[ln])}) {
								next = append(next, mk{"", x.st, o.lg})
							}
						}
						objs = next
					}
					for _, o := range objs {
						for i := 0; i < it.NumMethods(); i++ {
							m := it.Method(i)
							sg := m.Type().(*types.Signature)
							cname := fmt.Sprintf("%sLogger.%s at %s set by %s", kind, m.Name(), ln, how)
							if s, isMsg := sev[m.Name()]; isMsg {
								msgs = nil
								for k := 0; k < sg.Params().Len(); k++ {
									msgs = append(msgs, e.fresh(sg.Params().At(k).Type(), "msg"))
								}
								want := kind == "Console" && s <= li
								exits := r.invokeMethod(e, o.st.clone(), o.lg, m.Name(), msgs)
								for _, x := range exits {
									_, printed := x.st.g["printed"]
									r.oblige("level", cname, r.pOfMethod(o.lg, m), printed == want, fmt.Sprintf("a path prints: %v, wanted: %v", printed, want))
									if printed {
										_, other := x.st.g["other"]
										r.oblige("message", cname, r.pOfMethod(o.lg, m), !other, "what is printed is not the message given")
									}
								}
								r.oblige("level-returns", cname, r.pOfMethod(o.lg, m), len(exits) > 0, "the method does not return")
							} else if m.Name() == "GetLogLevel" {
								for _, x := range r.invokeMethod(e, o.st.clone(), o.lg, m.Name(), nil) {
									c, ok := constOf(x.st.nv(x.res))
									r.oblige("getlevel", cname, r.pOfMethod(o.lg, m), ok && c == lv[ln], "the level returned is not the one set")
								}
							}
						}
					}
				})
			}
		}
	}
}

// holds: the value is, or contains, another one.
func (st *State) holds(v, m Val, depth int) bool {
	v, m = st.nv(v), st.nv(m)
	if vkey(v) == vkey(m) {
		return true
	}
	if depth > 3 {
		return false
	}
	switch x := v.(type) {
	case VIface:
		return st.holds(x.V, m, depth+1)
	case VSlice:
		o := st.objs[x.O]
		if o == nil {
			return false
		}
		for _, c := range o.Cells {
			if st.holds(c, m, depth+1) {
				return true
			}
		}
		if sl, ok := m.(VSym); ok && o.Org == st.symKey(sl.S) {
			return true
		}
	}
	return false
}

func (r *Run) pOfMethod(recv Val, m *types.Func) string {
	if i, ok := recv.(VIface); ok {
		if f := r.p.prog.LookupMethod(i.T, m.Pkg(), m.Name()); f != nil && len(f.Blocks) > 0 {
			q := r.p.fset.Position(f.Pos())
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, r.p.root+"/"), q.Line)
		}
	}
	return ""
}

// invokeMethod calls a method on an interface value with a known dynamic type.
func (r *Run) invokeMethod(e *Engine, st *State, recv Val, name string, args []Val) []Exit {
	i, ok := st.nv(recv).(VIface)
	if !ok {
		r.fail("anchor", name, "", "the constructor does not return an object of a known type")
		return nil
	}
	var f *ssa.Function
	ms := r.p.prog.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			f = r.p.prog.MethodValue(ms.At(k))
		}
	}
	if f == nil {
		r.fail("anchor", name, "", "no such method")
		return nil
	}
	return e.call(st, f, append([]Val{i.V}, args...))
}
