package main

import (
	"fmt"
	"time"

	"golang.org/x/tools/go/ssa"
)

// debug analyses single functions and prints what is found.
func (r *Run) debug(names []string) {
	p := r.p
	if names[0] == "c19" {
		e := r.engine()
		r.crcceModel(e, false, nil)
		e.trace = len(names) > 1
		w := &bufWatch{r: r, rule: "stuffing", anch: "x"}
		e.onBuf = w.hook
		f := r.need("socket.EncodeMessage")
		r.guard("x", e, func() { fmt.Println(len(e.call(e.start(), f, e.freshArgs(f)))) })
		fmt.Println(r.finds)
		return
	}
	if names[0] == "crc" {
		r.debugCRC()
		return
	}
	if len(names) == 1 && names[0] == "nonnil" {
		for k := range r.nonNilFields() {
			fmt.Println(k)
		}
		return
	}
	for _, f := range p.funcs {
		ok := false
		for _, n := range names {
			ok = ok || n == p.short(f) || n == f.Pkg.Pkg.Name() && len(f.FreeVars) == 0
		}
		if !ok {
			continue
		}
		e := r.engine()
		e.trace = names[len(names)-1] == "t"
		msgs := map[string]bool{}
		e.onPanic = func(st *State, in ssa.Instruction, kind, what string) {
			msgs[kind+" "+what+" "+p.pos(in)+" "+e.stackText()] = true
		}
		t := time.Now()
		r.guard(p.short(f), e, func() {
			st := e.start()
			ex := e.call(st, f, e.freshArgs(f))
			fmt.Printf("%-60s exits %d steps %d  %v\n", p.short(f), len(ex), e.steps, time.Since(t).Round(time.Millisecond))
			for m := range msgs {
				fmt.Println("     ", m)
			}
			if len(names) < 3 && names[0] == p.short(f) {
				for _, x := range ex {
					fmt.Println("  ", vkey(x.st.nv(x.res)))
				}
			}
		})
	}
	for k, f := range r.finds {
		fmt.Println(k, f.Msg)
	}
	fmt.Println(r.unknown)
}

func (r *Run) debugCRC() {
	fmt.Println(r.crcFunc(r.need("socket.CalculateCRC"), false, "crc"))
	fmt.Println(r.crcFunc(r.need("socket.CalculateCRCCE"), true, "crc"))
	fmt.Println(r.validateFrame())
	for k, f := range r.finds {
		fmt.Println(k, f.Msg)
	}
}
