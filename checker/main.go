package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"golang.org/x/tools/go/ssa"
)

type check struct {
	run   func(*Run)
	expl  string
	level string
}

var checks = map[string]check{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker PROPERTY [quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	root := os.Getenv("EMBER_REPO")
	if root == "" {
		root = "/repo"
	}
	verif := os.Getenv("EMBER_VERIF")
	if verif == "" {
		exe, _ := os.Getwd()
		verif, _ = filepath.Abs(exe)
	}
	start := time.Now()
	p, err := loadProg(root)
	if err != nil {
		fmt.Println("cannot load", root+":", err)
		os.Exit(2)
	}
	r := &Run{p: p, id: id, verif: verif, start: start, finds: map[string]Finding{}, obl: map[string]bool{}, counts: map[string]int{}, sampled: map[string]int{}, funcs: map[*ssa.Function]bool{}, unknown: map[string]int{}}
	r.thorough = len(os.Args) > 2 && os.Args[2] == "thorough"
	if id == "debug" {
		r.debug(os.Args[2:])
		return
	}
	c, ok := checks[id]
	if !ok {
		fmt.Println("no check for", id)
		os.Exit(2)
	}
	c.run(r)
	level := c.level
	if level == "" {
		level = "other"
	}
	os.Exit(r.finish(level, c.expl))
}
