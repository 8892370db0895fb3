package main

import (
	"go/constant"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- components

// component is one of the programs influx-spout can run as.
type component struct {
	mode  string
	start string // package.Function
}

// startFns finds, for every mode, the function cmd/influx-spout starts.
var componentList = []component{
	{"listener", "listener.StartListener"},
	{"listener_http", "listener.StartHTTPListener"},
	{"filter", "filter.StartFilter"},
	{"downsampler", "downsampler.StartDownsampler"},
	{"writer", "writer.StartWriter"},
	{"monitor", "monitor.Start"},
}

// fieldIdx finds a struct field by name.
func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided{"not a struct: " + t.String()})
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(undecided{"no field " + name + " in " + t.String()})
}

// fileMod stands for the contents of configuration files: decoding one may set
// every option, and sets the mode to the one wanted.
type fileMod struct {
	BaseModule
	mode string
	term *Term
}

// content names what a file says, the same in every state in which nothing is
// known of it yet.
func (m *fileMod) content(st *State) *Term {
	if m.term == nil {
		m.term = freshTerm("conf")
	}
	is := func(x *Term) bool { return x == m.term }
	for _, c := range st.num.cons {
		for _, t := range c.l.t {
			if vt := varTerm[t.v]; vt != nil && vt.mentions(is) {
				return freshTerm("conf")
			}
		}
	}
	for _, l := range st.num.ne {
		for _, t := range l.t {
			if vt := varTerm[t.v]; vt != nil && vt.mentions(is) {
				return freshTerm("conf")
			}
		}
	}
	for _, t := range termTab {
		if t.mentions(is) {
			id := strconv.Itoa(t.id)
			for k := range st.facts {
				if strings.Contains(k, id) {
					return freshTerm("conf")
				}
			}
		}
	}
	return m.term
}

func (m *fileMod) Pre(c *Call) ([]Outcome, bool) {
	if !strings.Contains(c.name, "toml.") || c.fn != nil && c.in.pr.inRepo(c.fn) {
		return nil, false
	}
	for i := range c.args {
		v, ok := c.arg(i).(VIface)
		if !ok {
			continue
		}
		p, ok := v.V.(VPtr)
		if !ok || len(p.Path) > 0 || p.Idx != nil || !c.st.hasObj(p.Obj) || typeName(c.st.obj(p.Obj).typ) != "config.Config" {
			continue
		}
		st := c.st.clone()
		o := st.mut(p.Obj)
		o.val = cellInit(&Obj{kind: oCell, typ: o.typ, sym: m.content(st)})
		sv := o.val.(VStruct)
		o.val = sv.with(fieldIdx(o.typ, "Mode"), vstr(m.mode))
		c2 := *c
		c2.st = st
		return c2.outs(c2.fresh("decoded")), true
	}
	return nil, false
}

// validConfigs gives the states in which a configuration of one mode has been
// read from a file and accepted.
func (in *Interp) validConfigs(st *State, mode string) []Outcome {
	f := in.pr.fn("config.NewConfigFromFile")
	save, mod, loops := in.rec, in.mod, in.loops
	in.mod, in.loops, in.rec = &fileMod{mode: mode}, nil, false
	args := in.symArgs(f)
	fr := &Frame{fn: f, pinned: args}
	outs := in.runBody(fr, args, nil, st)
	in.rec, in.mod, in.loops = save, mod, loops
	var res []Outcome
	for _, o := range outs {
		p, ok := retN(o.ret, 0).(VPtr)
		if ok && mustNil(o.st, retN(o.ret, 1)) && o.st.hasObj(p.Obj) {
			p.T = nil
			in.kept = append(in.kept, p.Obj)
			nameFields(o.st, p.Obj)
			res = append(res, Outcome{o.st, p})
		}
	}
	if len(res) == 0 {
		panic(undecided{"no configuration of mode " + mode + " is accepted"})
	}
	if os.Getenv("CHKDEBUG") != "" {
		println("configurations", mode, len(res))
	}
	return res
}

// nameFields makes the texts and lists of a configuration recognisable as its
// fields again where several ways of reading it have been joined.
func nameFields(st *State, id ObjID) {
	x := st.mut(id)
	v, ok := x.val.(VStruct)
	t, ok2 := x.typ.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		op := "." + t.Field(i).Name()
		switch f := v.field(i).(type) {
		case VStr:
			if f.Const != nil && op == ".Mode" || f.T != nil && f.T.op == op {
				continue
			}
			w := symVal(t.Field(i).Type(), tm(op, freshTerm("conf"))).(VStr)
			w.Len = f.Len
			v = v.with(i, w)
		case VSlice:
			same := len(f.R) == 1 && st.obj(f.R[0]).sym != nil && st.obj(f.R[0]).sym.op == op
			if same || len(f.R) == 0 {
				continue
			}
			w, ok := symVal(t.Field(i).Type(), tm(op, freshTerm("conf"))).(VSlice)
			if !ok {
				continue
			}
			w.Len, w.Cap, w.nilK = f.Len, f.Cap, f.nilK
			v = v.with(i, w)
		}
	}
	x.val = v
}

func mustNil(st *State, v Val) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case VIface:
		if x.Dyn != nil {
			return false
		}
		if b, ok := st.facts[nilKey(x.T)]; ok {
			return b
		}
	case VPtr:
		if x.T != nil {
			if b, ok := st.facts[nilKey(x.T)]; ok {
				return b
			}
		}
	case VAlt:
		for _, a := range x.A {
			if !mustNil(st, a) {
				return false
			}
		}
		return len(x.A) > 0
	}
	return false
}

// runComponents starts every component with every accepted configuration and
// interprets the start function and whatever it runs concurrently.
func runComponents(c *Ctx, mk func(cp component) (*Interp, func(*Root, *State) *State)) {
	for _, cp := range componentList {
		if only := os.Getenv("MODE"); only != "" && only != cp.mode {
			continue
		}
		in, prep := mk(cp)
		if in == nil {
			continue
		}
		runComponent(c, in, cp, prep)
		c.absorb(in)
	}
}

func runComponent(c *Ctx, in *Interp, cp component, prep func(*Root, *State) *State) {
	st := in.globalsState()
	f := c.pr.fn(cp.start)
	in.starting = true
	for _, o := range in.validConfigs(st, cp.mode) {
		if in.onConfig != nil {
			in.onConfig(o.ret.(VPtr))
		}
		in.runEntry(f, []Val{o.ret}, nil, o.st)
	}
	in.starting = false
	in.runRoots(prep)
	c.count["components"]++
	c.count["concurrent entry points"] += len(in.roots)
}

// apiOpaque hides packages with their own checks behind contracts.
func apiOpaque(in *Interp, names ...string) {
	in.opaque = func(c *Call) bool {
		if c.fn == nil {
			return false
		}
		n := c.name
		for _, p := range names {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
}

func instrFn(i ssa.Instruction) string { return i.Parent().RelString(nil) }

func constInt(k *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(k.Val()))
}
