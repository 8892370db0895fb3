package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C47: which component the program runs.

type mainMod struct {
	BaseModule
	c    *Ctx
	mode string
}

func (m *mainMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key+":"+m.mode, ok, where, msg)
		m.c.inst(key + " " + m.mode)
	}
}

func (m *mainMod) Pre(c *Call) ([]Outcome, bool) {
	st, where := c.st, c.in.pos(c.fr, c.instr)
	switch c.name {
	case "config.NewConfigFromFile":
		o := c.okOrErr("config")
		good := o[0].st
		p, ok := retN(o[0].ret, 0).(VPtr)
		if !ok {
			panic(undecided{"result of " + c.name})
		}
		x := good.mut(p.Obj)
		if x.val == nil {
			x.val = cellInit(x)
		}
		x.val = x.val.(VStruct).with(fieldIdx(x.typ, "Mode"), vstr(m.mode))
		good.g["config"] = VPtr{Obj: p.Obj}
		o[1].st.d["failed"] = "reading the configuration"
		s, ok := unwrap(c.arg(0)).(VStr)
		m.check(c.in, "file", ok && s.T != nil && s.T.mentions(func(t *Term) bool { return strings.Contains(t.op, "Args") || strings.HasPrefix(t.op, "elem[1]") }), where, "the configuration is not read from the file on the command line")
		return o, true
	case "runtime.Goexit":
		m.check(c.in, "runs", st.d["started"] != "" && st.d["failed"] == "", where, "the program goes on without a running component")
	case "log.Fatal", "log.Fatalf", "os.Exit", "log.Fatalln":
		m.check(c.in, "exits", c.in.curRoot == nil && (st.d["started"] == "" || st.d["failed"] != ""), where, "the program exits although its component was started")
		if st.d["failed"] != "" {
			m.check(c.in, "failure seen", true, where, "")
		}
	case "net/http.ListenAndServe":
		if n := cfgLin(c, m.cfg(st), "PprofPort"); n != nil {
			m.check(c.in, "pprof", st.num.lt(n.neg()), where, "profiles are served although no port is configured for that")
			a, ok := unwrap(c.arg(0)).(VStr)
			m.check(c.in, "pprof port", ok && a.T != nil && a.T.mentions(func(t *Term) bool { return t.op == "lin:"+n.key() }), where, "profiles are served on another port")
		}
	}
	for _, cp := range componentList {
		if c.name != cp.start {
			continue
		}
		m.check(c.in, "component", cp.mode == m.mode && st.d["started"] == "", where, "another component is started than the configuration asks for")
		p, ok := configPtr(st, c.arg(0))
		m.check(c.in, "configuration", ok && p.Obj == m.cfg(st).Obj, where, "the component is started with another configuration")
		o := c.okOrErr("start")
		o[0].st.d["started"] = "1"
		o[1].st.d["failed"] = "starting"
		o[1].st.d["started"] = "1"
		return o, true
	}
	return nil, false
}

func (m *mainMod) cfg(st *State) VPtr {
	p, _ := st.g["config"].(VPtr)
	return p
}

func (m *mainMod) Store(in *Interp, fr *Frame, st *State, p VPtr, old, new Val, ins ssa.Instruction) {
	if c, ok := st.g["config"].(VPtr); ok && c.Obj == p.Obj {
		m.check(in, "unchanged", isZero(st, old), in.pos(fr, ins), "an accepted configuration is changed")
	}
}

func (m *mainMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if _, ok := ins.(*ssa.Return); ok && fr.parent == nil && in.curRoot == nil {
		m.check(in, "ends", false, in.pos(fr, ins), "the program ends by itself, which stops its component")
	}
}

func init() {
	register(&Property{id: "C47", level: "other", rule: "abstract interpretation of the main function for every mode: the start function called, its argument and what follows", run: func(c *Ctx) {
		for _, cp := range componentList {
			m := &mainMod{c: c, mode: cp.mode}
			in := newInterp(c.pr, m)
			st := in.globalsState()
			f := c.pr.fn("cmd/influx-spout.main")
			in.runEntry(f, nil, nil, st)
			in.runRoots(nil)
			c.absorb(in)
			for _, k := range []string{"component ", "configuration ", "runs ", "failure seen ", "pprof "} {
				c.need(k+cp.mode, 1)
			}
		}
	}})
}
