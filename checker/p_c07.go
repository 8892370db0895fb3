package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type boundsMod struct {
	BaseModule
	c *Ctx
}

func (m *boundsMod) Bounds(in *Interp, fr *Frame, st *State, ins ssa.Instruction, what string, ok bool) {
	if in.starting {
		return // nothing has been received yet; C33 covers the rules
	}
	if !ok && in.rec && os.Getenv("V") != "" {
		fmt.Println("FAIL", in.pos(fr, ins), ins.String(), "\n", st.num.String())
		for f := fr; f != nil; f = f.parent {
			fmt.Println("   in", in.pr.fname(f.fn))
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				fmt.Println("    ", (*op).Name())
			}
		}
	}
	if call, isCall := ins.(*ssa.Call); isCall && what == "nil dereference" {
		if lk, isLk := call.Call.Value.(*ssa.Lookup); isLk && !lk.CommaOk {
			return // looking up a key known to be in the map; a missing one is a defect of the map's invariant, not of bounds
		}
	}
	if ia, isIA := ins.(*ssa.IndexAddr); isIA {
		if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint64]) {
			return // arrays of counters: sized and indexed by the configuration, not by received bytes
		}
	}
	key := "bounds:" + what + ":" + in.pr.fname(ins.Parent()) + ":" + exprKey(ins)
	in.oblige(key, ok, in.pos(fr, ins), what+" may be out of range")
}
func (m *boundsMod) Panic(in *Interp, fr *Frame, st *State, ins ssa.Instruction) {
	in.oblige("panic:"+in.pr.fname(ins.Parent()), false, in.pos(fr, ins), "an explicit panic is reachable")
}

func init() {
	register(&Property{id: "C07", level: "other", rule: "bounds", run: func(c *Ctx) {
		mk := func() *Interp {
			in := newInterp(c.pr, &boundsMod{c: c})
			apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
			hide := in.opaque
			in.opaque = func(c *Call) bool {
				return c.name != "stats.NewAnon" && c.name != "(*stats.AnonStats).Snapshot" && hide(c)
			}
			return in
		}
		checkContracts(c, mk)
		runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
			in := mk()
			useContracts(in)
			return in, nil
		})
	}})
}

func exprKey(ins ssa.Instruction) string { return fmt.Sprintf("%T", ins) }

func debugEntry(pr *Program, name string) {
	c := newCtx(pr, "X", "quick")
	in := newInterp(pr, &boundsMod{c: c})
	st := in.globalsState()
	f := pr.fn(name)
	outs := in.runEntry(f, in.symArgs(f), nil, st)
	c.absorb(in)
	fmt.Println("outcomes", len(outs), "steps", in.steps)
	for k, ok := range c.obl {
		fmt.Println(ok, k, c.viol[k])
	}
}
