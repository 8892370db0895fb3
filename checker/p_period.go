package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: everything done periodically has a period. A duration somebody waits
// for which comes from the configuration alone is greater than zero in every
// configuration which is accepted.

type periodMod struct {
	BaseModule
	c    *Ctx
	mode string
	cfg  VPtr
}

// timerArg gives the position of the duration a call starts to wait for, or
// divides time into.
func timerArg(name string) int {
	switch name {
	case "time.After", "time.Sleep", "time.NewTimer", "time.NewTicker", "time.Tick", "time.AfterFunc":
		return 0
	case "(*time.Timer).Reset", "(*time.Ticker).Reset", "(time.Time).Truncate", "(time.Time).Round":
		return 1
	}
	return -1
}

func (m *periodMod) Pre(c *Call) ([]Outcome, bool) {
	i := timerArg(c.name)
	if i < 0 || i >= len(c.args) || !c.in.rec {
		return nil, false
	}
	st, in := c.st, c.in
	key := m.mode + ":" + in.pr.fname(c.fr.fn)
	d, ok := c.arg(i).(VInt)
	where := in.pos(c.fr, c.instr)
	switch {
	case !ok:
		in.oblige("period:"+key, false, where, "nothing is known about how long this waits")
	case st.num.lt(d.L.neg()):
		in.oblige("period:"+key, true, where, "")
		m.c.inst("positive periods " + m.mode)
		if n := m.option(st, d.L); n != "" {
			m.c.inst("period:" + n)
		} else if len(d.L.t) == 0 {
			m.c.inst("constant periods")
		}
	default:
		// a time left to wait, which is over
		n := m.option(st, d.L)
		if x, ok := c.instr.(ssa.CallInstruction); ok && i < len(x.Common().Args) {
			if k, ok := x.Common().Args[i].(*ssa.Const); ok {
				n = k.String()
			}
		}
		in.oblige("period:"+key, n == "", where, "the option "+n+" may be zero or negative, which makes this loop spin")
		if n == "" {
			m.c.inst("waits until a time " + m.mode)
		}
	}
	return nil, false
}

// option finds the duration option a number comes from: every variable of it
// is the value of an option.
func (m *periodMod) option(st *State, l *Lin) string {
	if !st.hasObj(m.cfg.Obj) {
		return ""
	}
	o := st.obj(m.cfg.Obj)
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	vals := map[Var]string{}
	for i := 0; i < s.NumFields(); i++ {
		name := s.Field(i).Name()
		v := cfgDur(st, m.cfg, name)
		if v == nil {
			continue
		}
		if x, ok := v.singleVar(); ok {
			vals[x] = name
		}
	}
	var names []string
	for _, t := range l.t {
		n := vals[t.v]
		if n == "" {
			return ""
		}
		names = append(names, n)
	}
	sort.Strings(names)
	return strings.Join(names, " and ")
}

func init() {
	register(&Property{id: "C30", level: "other", rule: "every duration waited for which is set by an option is entailed to be greater than zero", run: func(c *Ctx) {
		runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
			m := &periodMod{c: c, mode: cp.mode}
			in := newInterp(c.pr, m)
			in.onConfig = func(p VPtr) { m.cfg = p }
			apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.")
			useContracts(in)
			return in, nil
		})
		for _, cp := range componentList {
			if cp.mode != "monitor" {
				c.need("positive periods "+cp.mode, 1)
			}
		}
	}})
}
