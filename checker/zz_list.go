package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"sort"
)

func listExternals(pr *Program) {
	m := map[string]int{}
	for _, f := range pr.funcs {
		if !pr.production(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					m["I "+pr.short(cc.Method.FullName())]++
					continue
				}
				if sf := cc.StaticCallee(); sf != nil && len(sf.Blocks) == 0 {
					m["X "+pr.fname(sf)]++
				}
				if sf := cc.StaticCallee(); sf == nil {
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						m["D "+pr.fname(f)]++
					}
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(m[k], k)
	}
}
func dumpFn(pr *Program, n string) { pr.fn(n).WriteTo(os.Stdout) }

func debugPTA(pr *Program) {
	for _, cp := range componentList {
		p, _ := pr.component(cp.start)
		fmt.Println(cp.mode, "instances", len(p.insts), "objects", len(p.objs))
		for _, r := range p.roots {
			if r.kind == "init" {
				continue
			}
			n := 0
			for _, i := range p.insts {
				if i.root == r {
					n++
				}
			}
			fmt.Println("  root", r.kind, pr.fname(r.inst.fn), n)
		}
	}
}
