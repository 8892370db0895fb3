package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C46: every loop makes progress. For each way through the body of a loop
// which comes back to its start either something was waited for, or a measure
// went down which cannot go down for ever; the measures of the ways through
// one loop are put in order (as in a lexicographic ranking function).

type termMod struct {
	BaseModule
	c    *Ctx
	mode string
}

const loopMark = "loop:"

func (m *termMod) waited(st *State) {
	for k := range st.d {
		if strings.HasPrefix(k, loopMark) {
			st.d[k] = "w"
		}
	}
}

// list keeps count of the elements in linked lists, and of those still to come
// when one is gone through.
func (m *termMod) list(c *Call) ([]Outcome, bool) {
	model := models[c.name]
	if model == nil {
		return nil, false
	}
	num := func(st *State, name string) *Lin {
		if v, ok := st.g[name].(VInt); ok {
			return v.L
		}
		l := freshLin(name, i128(0), i128(maxLen))
		st.g[name] = VInt{l}
		return l
	}
	add := func(st *State, name string, k int64) {
		st.g[name] = VInt{num(st, name).addC(k)}
	}
	op := c.name[strings.LastIndex(c.name, ".")+1:]
	size := "list.len"
	if p, ok := c.arg(0).(VPtr); ok && strings.HasPrefix(c.name, "(*container/list.List)") {
		size += fmt.Sprint(p.Obj, p.Path)
	}
	n := num(c.st, size)
	switch op {
	case "PushBack", "PushFront", "InsertBefore", "InsertAfter":
		add(c.st, size, 1)
		delete(c.st.g, "list.rest")
	case "MoveToBack", "MoveToFront", "MoveBefore", "MoveAfter":
		delete(c.st.g, "list.rest")
	case "Remove":
		// the element is in the list
		if x := c.st.num.assumeLe(linC(1).sub(n)); x != nil {
			c.st.num = x
		}
		add(c.st, size, -1)
	case "Len":
		outs := model(c)
		for i := range outs {
			if v, ok := outs[i].ret.(VInt); ok {
				outs[i].st.num = outs[i].st.num.addCon(v.L.sub(n), true)
			}
		}
		return outs, true
	case "Front", "Back", "Next", "Prev":
		// rest counts the element arrived at as well
		rest := n
		var outs []Outcome
		if op == "Next" || op == "Prev" {
			rest = num(c.st, "list.rest").addC(-1)
			if x := c.st.num.assumeLe(rest.neg()); x != nil {
				c.st.num = x
			}
		}
		for _, o := range model(c) {
			if _, none := o.ret.(VNil); !none {
				x := o.st.num.assumeLe(linC(1).sub(rest))
				if x == nil {
					continue
				}
				o.st.num = x
				o.st.g["list.rest"] = VInt{rest}
			} else {
				if op == "Front" || op == "Back" {
					x := o.st.num.assumeLe(n)
					if x == nil {
						continue
					}
					o.st.num = x
				}
				o.st.g["list.rest"] = vint(0)
			}
			outs = append(outs, o)
		}
		return outs, true
	default:
		delete(c.st.g, size)
		delete(c.st.g, "list.rest")
	}
	return model(c), true
}

func (m *termMod) mark(st *State, from, to string) {
	for k, v := range st.d {
		if strings.HasPrefix(k, loopMark) && v == from {
			st.d[k] = to
		}
	}
}

func (m *termMod) Pre(c *Call) ([]Outcome, bool) {
	if c.fn != nil && c.in.pr.inRepo(c.fn) {
		return nil, false
	}
	if strings.HasPrefix(c.name, "(*container/list.") {
		return m.list(c)
	}
	switch {
	case waitsFor(c.name) != "" || strings.HasSuffix(c.name, ".Accept"):
		m.waited(c.st)
	case strings.HasPrefix(c.name, "sync/atomic.Load") || strings.HasPrefix(c.name, "(*sync/atomic.") && strings.HasSuffix(c.name, ".Load"):
		m.mark(c.st, "0", "l")
	case strings.Contains(c.name, "sync/atomic.") && strings.Contains(c.name, "CompareAndSwap"):
		// fails only when somebody else got something done since the load
		m.mark(c.st, "l", "w")
	}
	return nil, false
}

func (m *termMod) Send(in *Interp, fr *Frame, st *State, ch, v Val, ins ssa.Instruction) {
	if _, ok := ins.(*ssa.Send); ok {
		m.waited(st)
	}
}

func (m *termMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Select:
		if x.Blocking {
			m.waited(p.st)
		}
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			m.waited(p.st)
		}
	}
}

// transition is one way around a loop.
type transition struct {
	from, to map[string]*Lin
	num      *Num
	fixed    map[Var]bool
}

// measures lists the numbers a loop could count with.
func measures(st *State, vals map[string]Val) map[string]*Lin {
	out := map[string]*Lin{}
	var walk func(name string, v Val, depth int)
	walk = func(name string, v Val, depth int) {
		switch x := v.(type) {
		case VInt:
			out[name] = x.L
		case VStr:
			out["len "+name] = x.Len
		case VSlice:
			out["len "+name] = x.Len
			out["cap "+name] = x.Cap
		case VStruct:
			if s, ok := x.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields() && i < len(x.F); i++ {
					if x.F[i] != nil {
						walk(name+"."+s.Field(i).Name(), x.F[i], depth)
					}
				}
			}
		case VPtr:
			if depth == 0 || x.Idx != nil || !st.hasObj(x.Obj) {
				return
			}
			o := st.obj(x.Obj)
			if o.kind != oCell {
				return
			}
			v := o.val
			if v == nil {
				v = cellInit(o)
			}
			if len(x.Path) > 0 {
				v = getPath(v, x.Path)
			}
			walk(name, v, depth-1)
		case VIface:
			if x.V != nil {
				walk(name, x.V, depth)
			}
		}
	}
	for n, v := range vals {
		walk(n, v, 2)
	}
	for n, v := range st.g {
		walk(n, v, 0)
	}
	return out
}

// bounded tells whether x cannot grow without bound while the fixed variables
// keep their values.
func bounded(num *Num, x *Lin, fixed map[Var]bool) bool {
	d := map[Var]*Lin{}
	zero := linC(0)
	sub := func(l *Lin) *Lin {
		r := linC(0)
		for _, t := range l.t {
			e, ok := d[t.v]
			if !ok {
				lo, hi, hasLo, hasHi := boundsOf(t.v)
				_, big := hi.sub(lo)
				switch {
				case fixed[t.v]:
					e = zero
				case hasLo && hasHi && big && hi.cmp(i128(1<<20)) <= 0 && lo.cmp(i128(-1<<20)) >= 0:
					e = zero
				case hasLo && lo.cmp(i128(-1<<20)) >= 0:
					v := newVar("δ")
					vars[v].hasLo = true
					e = linV(v)
				default:
					e = linV(newVar("δ"))
				}
				d[t.v] = e
			}
			r = r.add(e.scale(t.k))
		}
		return r
	}
	n := emptyNum
	for _, c := range num.cons {
		l := sub(c.l)
		if l.isConst() {
			continue
		}
		n = n.addCon(l, c.eq)
	}
	return n.le(sub(x))
}

// ranked puts the ways around a loop in an order in which they must run out.
func ranked(ts []transition) (string, bool) {
	names := map[string]bool{}
	for _, t := range ts {
		for k := range t.from {
			names[k] = true
		}
	}
	var all []string
	for k := range names {
		all = append(all, k)
	}
	sort.Strings(all)
	used := ""
	// what no way around the loop changes stays the same
	for _, name := range all {
		same := true
		for _, t := range ts {
			a, b := t.from[name], t.to[name]
			same = same && a != nil && b != nil && eqLin(a, b)
		}
		if same {
			for _, t := range ts {
				if v, ok := t.from[name].singleVar(); ok {
					t.fixed[v] = true
				}
			}
		}
	}
	for len(ts) > 0 {
		progress := false
		for _, name := range all {
			for _, sign := range []int64{1, -1} {
				var rest []transition
				ok, down := true, 0
				for _, t := range ts {
					a, b := t.from[name], t.to[name]
					if a == nil || b == nil {
						ok = false
						break
					}
					a, b = a.scale(sign), b.scale(sign)
					d := b.sub(a)
					if d == nil || !t.num.le(d) {
						ok = false
						break
					}
					if t.num.le(d.addC(1)) && bounded(t.num, a.neg(), t.fixed) {
						down++
						continue
					}
					rest = append(rest, t)
				}
				if ok && down > 0 {
					ts = rest
					progress = true
					used += " " + name
					if sign < 0 {
						used += " (up)"
					}
					break
				}
			}
			if progress {
				break
			}
		}
		if !progress {
			return used, false
		}
	}
	return used, true
}

func (m *termMod) loopDone(in *Interp, fr *Frame, l *loopInfo, ts []transition, waits int) {
	key := "progress:" + m.mode + ":" + in.pr.fname(fr.fn)
	where := in.pos(fr, l.head.Instrs[0])
	used, ok := ranked(ts)
	if !ok && os.Getenv("V") != "" {
		for _, t := range ts {
			fmt.Println("TRANSITION", in.pr.fname(fr.fn), where)
			for _, k := range sortedKeys2(t.from) {
				fmt.Println("   ", k, t.from[k], "->", t.to[k])
				for _, x := range t.from[k].t {
					lo, hi, hl, hh := boundsOf(x.v)
					fmt.Println("        ", lo, hl, hi, hh)
				}
			}
			fmt.Println(t.num.String())
		}
	}
	in.oblige(key, ok, where, "a loop may run for ever without getting anything done")
	m.c.inst("loops " + m.mode)
	if len(ts) > 0 {
		m.c.inst("loops with a measure " + m.mode)
		if used != "" {
			m.c.inst("measure:" + used)
		}
	}
	if waits > 0 {
		m.c.inst("loops which wait " + m.mode)
	}
}

func sortedKeys2(m map[string]*Lin) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register(&Property{id: "C46", level: "other", rule: "ranking functions: for every loop an integer measure which goes down, or a wait, on every path around it", run: func(c *Ctx) {
		mk := func(mode string) *Interp {
			m := &termMod{c: c, mode: mode}
			in := newInterp(c.pr, m)
			in.loops = m
			apiOpaque(in, "stats.New", "(*stats.Stats).Inc", "(*stats.Stats).Max", "(*stats.Stats).Get", "probes.", "(*probes.")
			return in
		}
		checkContracts(c, func() *Interp { return mk("parser") })
		runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
			in := mk(cp.mode)
			useContracts(in)
			return in, nil
		})
		for _, cp := range componentList {
			c.need("loops "+cp.mode, 1)
		}
		c.need("loops parser", 1)
	}})
}
