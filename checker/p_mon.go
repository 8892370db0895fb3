package main

import (
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26 and C27: the metrics a monitor collects. A message is parsed whole, line
// by line; if all of it is valid every metric on it is stored, otherwise
// nothing. A scrape is answered with all stored metrics.
//
// Ghosts: "pend" is the metric (or the key of one) taken last, which has to be
// stored, collected or written out before the next one is taken; "range" tells
// whether a walk over a set is complete, "listn" how many were collected and
// "li" how many of these were taken.

type monMod struct {
	BaseModule
	c     *Ctx
	id    string
	phase string
	path  map[ssa.Instruction]string
	msg   VSlice
	put   map[ObjID]bool
	shown map[ObjID]bool
	own   map[ObjID]bool
	part  bool // a set may come with an error
}

func (m *monMod) check(in *Interp, key string, ok bool, where, msg string) {
	scrape := strings.HasPrefix(key, "scrape") || strings.HasPrefix(key, "render")
	if in.rec && scrape == (m.id == "C27") {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

func (m *monMod) active(in *Interp) bool {
	return m.phase != "" || in.curRoot != nil && in.curRoot.kind == "nats"
}

func isMetricPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == "prometheus.Metric"
}

func isMetricMap(t types.Type) bool {
	mt, ok := t.Underlying().(*types.Map)
	return ok && isMetricPtr(mt.Elem())
}

// mapOf gives the map of a set.
func (m *monMod) mapOf(in *Interp, st *State, set Val) (ObjID, bool) {
	p, ok := unwrap(set).(VPtr)
	if !ok || !st.hasObj(p.Obj) || len(p.Path) > 0 {
		return 0, false
	}
	s, ok := st.obj(p.Obj).typ.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isMetricMap(s.Field(i).Type()) {
			for _, r := range in.load(st, VPtr{Obj: p.Obj, Path: []int{i}}) {
				if q, ok := r.v.(VPtr); ok {
					return q.Obj, true
				}
			}
		}
	}
	return 0, false
}

func (m *monMod) settle(st *State) {
	delete(st.d, "pend")
	delete(st.g, "pend")
}

// dependsOn tells whether a term is a field, or a number which depends on it.
func dependsOn(x *Term, field string) bool {
	if x.op == field {
		return true
	}
	for _, n := range varIn.FindAllStringSubmatch(x.op, -1) {
		k, _ := strconv.Atoi(n[1])
		if t := varTerm[Var(k)]; t != nil && t.mentions(func(y *Term) bool { return y.op == field }) {
			return true
		}
	}
	return false
}

var varIn = regexp.MustCompile(`\dv(\d+)`)

// take starts with the next metric.
func (m *monMod) take(in *Interp, st *State, v Val, where string) {
	m.idle(in, st, where)
	st.d["pend"] = "1"
	if v != nil {
		st.g["pend"] = v
	}
}

func (m *monMod) idle(in *Interp, st *State, where string) {
	msg := "a metric is left out"
	if m.phase == "parse" {
		msg = "a valid line is not stored"
	}
	m.check(in, m.name(in)+" each", st.d["pend"] == "" && st.d["bad"] == "", where, msg+", or an invalid one is passed over")
	m.settle(st)
	delete(st.d, "bad")
}

func (m *monMod) name(in *Interp) string {
	if m.phase != "" {
		return m.phase
	}
	return "receive"
}

func (m *monMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	where := in.pos(c.fr, c.instr)
	http := in.curRoot != nil && in.curRoot.kind == "http"
	switch {
	case m.phase == "" && strings.HasSuffix(c.name, "ServeMux).HandleFunc"), m.phase == "" && strings.HasSuffix(c.name, "ServeMux).Handle"), c.name == "net/http.HandleFunc", c.name == "net/http.Handle":
		if s, ok := c.constStr(len(c.args) - 2); ok {
			m.path[c.instr] = s
		}
	case c.name == "prometheus.ParseMetrics" && m.phase == "" && m.active(in):
		s, ok := sliceOf(c.arg(0))
		m.check(in, "receive whole", ok && st.d["parse"] == "" && sameSlice(st, s, m.msg), where, "something other than the whole message is parsed, or it is parsed again")
		set := nonNil(symVal(c.resType(0), freshTerm("parsed"))).(VPtr)
		bad := st.clone()
		bad.d["parse"] = "err"
		st.d["parse"] = "ok"
		st.g["set"] = set
		e := errVal(bad, "metrics.err")
		outs := []Outcome{{st, VTuple{[]Val{set, VNil{}}}}, {bad, VTuple{[]Val{VNil{}, e}}}}
		if m.part {
			st2 := bad.clone()
			st2.g["set"] = set
			outs = append(outs, Outcome{st2, VTuple{[]Val{set, e}}})
		}
		return outs, true
	case c.name == "prometheus.ParseMetric" && m.phase == "parse":
		s, ok := sliceOf(c.arg(0))
		if ok && !curIs(st, s) {
			if _, split := st.g["cur.lines"]; !split && bareNext(st, s) {
				m.line(in, st, where)
			}
		}
		m.check(in, "parse line", ok && curIs(st, s) && st.d["line"] == "new", where, "something other than the next line is parsed as a metric")
		st.d["line"] = "parsed"
		v := nonNil(symVal(c.resType(0), freshTerm("metric")))
		bad := st.clone()
		bad.d["bad"] = "1"
		m.take(in, st, v, where)
		return []Outcome{{st, VTuple{[]Val{v, VNil{}}}}, {bad, VTuple{[]Val{VNil{}, errVal(bad, "metrics.err")}}}}, true
	case c.name == "(*prometheus.MetricSet).ToBytes" && http && m.phase == "":
		v := symVal(c.resType(0), freshTerm("page"))
		if id, ok := m.mapOf(in, st, c.arg(0)); ok {
			m.shown[id] = true
		}
		st.g["page"] = v
		st.d["page"] = "due"
		return c.outs(v), true
	case strings.HasSuffix(c.name, "ResponseWriter).Write") && http && m.phase == "":
		s, ok := sliceOf(c.arg(len(c.args) - 1))
		p, ok2 := st.g["page"].(VSlice)
		m.check(in, "scrape page", ok && ok2 && st.d["page"] == "due" && sameSlice(st, s, p), where, "something other than the metrics of the set is written, or they are written again")
		st.d["page"] = "written"
		delete(st.g, "page")
	case c.name == "(*prometheus.Metric).ToBytes" && m.phase == "render":
		m.check(in, "render metric", st.d["pend"] == "1" && st.g["metric"] != nil && sameRes(st.g["metric"], c.arg(0)), where, "something other than the next metric is rendered")
		v := symVal(c.resType(0), freshTerm("rendered"))
		st.d["pend"] = "rendered"
		st.g["bytes"] = v
		delete(st.g, "metric")
		return c.outs(v), true
	case c.name == "(prometheus.Labels).ToBytes":
		st.d["labels"] = "1"
		return c.outs(symVal(c.resType(0), tm("labels", termOf(c.arg(0))))), true
	case m.phase == "render" && (c.name == "(*bytes.Buffer).Write" || c.name == "(*bytes.Buffer).WriteString" || c.name == "(*bytes.Buffer).WriteByte" || c.name == "(*bytes.Buffer).WriteRune"):
		switch st.d["pend"] {
		case "joined":
			s, ok := sliceOf(c.arg(1))
			b, ok2 := st.g["bytes"].(VSlice)
			m.check(in, "render bytes", ok && ok2 && eqBoth(st, s.Len, b.Len.addC(1)), where, "something else than the metric is written")
			m.check(in, "render newline", true, where, "")
			m.settle(st)
			delete(st.g, "bytes")
		case "rendered":
			s, ok := sliceOf(c.arg(1))
			b, ok2 := st.g["bytes"].(VSlice)
			m.check(in, "render bytes", ok && ok2 && sameSlice(st, s, b), where, "something else than the metric is written")
			st.d["pend"] = "line"
			delete(st.g, "bytes")
		case "line":
			nl := c.isLF(st, 1)
			if s, ok := c.arg(1).(VStr); ok {
				nl = s.Const != nil && *s.Const == "\n"
			}
			m.check(in, "render newline", nl, where, "a metric is not followed by a newline")
			m.settle(st)
		default:
			m.check(in, "render bytes", false, where, "something is written which is no metric")
		}
	}
	return nil, false
}

// line is called when a line is taken.
func (m *monMod) line(in *Interp, st *State, where string) {
	m.idle(in, st, where)
	if st.d["line"] == "new" {
		m.check(in, "parse all", false, where, "a line is skipped")
	}
	st.d["line"] = "new"
	if l, ok := st.g["cur.line"].(VSlice); ok && st.num.le(l.Len) {
		delete(st.d, "line")
	}
}

func (m *monMod) Post(c *Call, o *Outcome) {
	if m.phase != "parse" {
		return
	}
	st := o.st
	switch c.name {
	case "bytes.Split":
		d, ok := st.g["cur.data"].(VSlice)
		a, ok1 := sliceOf(c.arg(0))
		r, ok2 := sliceOf(o.ret)
		if ok && ok1 && ok2 && sameSlice(st, d, a) && len(r.R) == 1 && c.isLF(st, 1) {
			st.g["cur.lines"] = r
			st.g["cur.n"] = VInt{linC(0)}
		}
	default:
		curPost(c, o)
	}
}

func (m *monMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if !m.active(in) || ptr.Idx == nil || len(ptr.Path) > 0 || !st.hasObj(ptr.Obj) {
		return
	}
	where := in.pos(fr, ins)
	if m.phase == "parse" {
		old, had := st.g["cur.line"]
		next, ok := curLoad(st, ptr, v)
		if next {
			m.empty(st, old, had)
			m.line(in, st, where)
			return
		}
		m.check(in, "parse order", ok, where, "the lines are not looked at one after the other")
		return
	}
	t := st.obj(ptr.Obj).typ
	b, isStr := t.Underlying().(*types.Basic)
	if !isMetricPtr(t) && !(isStr && b.Kind() == types.String && m.phase == "render") || st.d["range"] == "" {
		return
	}
	m.check(in, m.name(in)+" walked", st.d["range"] == "done", where, "the collected metrics are used before all were collected")
	li := linC(0)
	if x, ok := st.g["li"].(VInt); ok {
		li = x.L
	}
	if ptr.Region(st) && eqBoth(st, ptr.Idx, li) {
		m.take(in, st, v, where)
		if isMetricPtr(t) {
			st.g["metric"] = v
		}
		st.g["li"] = VInt{li.addC(1)}
		return
	}
	m.check(in, m.name(in)+" order", eqBoth(st, ptr.Idx, li.addC(-1)), where, "the collected metrics are not taken one after the other")
}

// Region tells whether a pointer is to an element of an array.
func (p VPtr) Region(st *State) bool { return st.obj(p.Obj).kind == oRegion }

// empty settles a line which turned out to have nothing on it.
func (m *monMod) empty(st *State, line Val, had bool) {
	if l, ok := line.(VSlice); had && ok && st.d["line"] == "new" && st.num.le(l.Len) {
		delete(st.d, "line")
	}
}

func (m *monMod) MapUpdate(in *Interp, fr *Frame, st *State, mp, k, v Val, ins ssa.Instruction) {
	u, ok := ins.(*ssa.MapUpdate)
	if !m.active(in) || ok && !isMetricMap(u.Map.Type()) {
		return
	}
	where := in.pos(fr, ins)
	id, known := objOf(mp)
	if v == nil {
		m.check(in, m.name(in)+" keeps", false, where, "a metric is deleted")
		return
	}
	want := st.g["pend"]
	m.check(in, m.name(in)+" stores", want != nil && st.d["pend"] == "1" && sameRes(want, v) && known, where, "something other than the next metric is stored")
	if m.phase == "" {
		m.put[id] = true
		m.check(in, "receive only valid", st.d["parse"] == "ok", where, "metrics of an invalid message are stored")
	}
	st.d["stored"] = "1"
	m.own[id] = true
	if s, ok := k.(VStr); ok {
		t := valString(s)
		name, labels := strings.Contains(t, ".Name("), strings.Contains(t, ".Labels(")
		more := s.T != nil && s.T.mentions(func(x *Term) bool { return dependsOn(x, ".Value") || dependsOn(x, ".Milliseconds") })
		m.check(in, m.name(in)+" key", name == labels && !more && s.Const == nil, where, "metrics are not told apart by their names and labels alone")
	}
	m.settle(st)
}

func (m *monMod) Store(in *Interp, fr *Frame, st *State, ptr VPtr, old, v Val, ins ssa.Instruction) {
	if !m.active(in) || ptr.Idx == nil || st.d["range"] != "open" || st.d["pend"] == "" || !st.hasObj(ptr.Obj) || !ptr.Region(st) || strings.HasSuffix(st.obj(ptr.Obj).site, "varargs") {
		return
	}
	a, ok := ins.(*ssa.Store)
	if !ok {
		return
	}
	if x, ok := a.Addr.(*ssa.IndexAddr); !ok || isArrayPtr(x.X.Type()) {
		return
	}
	t := st.obj(ptr.Obj).typ
	if !isMetricPtr(t) && t.String() != "string" {
		return
	}
	n, ok := st.g["listn"].(VInt)
	m.check(in, m.name(in)+" collected", ok && eqBoth(st, ptr.Idx, n.L) && m.seen(st, v), in.pos(fr, ins), "something other than the next metric is collected")
	m.collect(st)
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// seen tells whether a value is the metric, or the key, taken last.
func (m *monMod) seen(st *State, v Val) bool {
	for _, k := range []string{"seen1", "seen2"} {
		if s := st.g[k]; s != nil && (sameRes(s, v) || valString(s) == valString(v)) {
			return true
		}
	}
	return false
}

func (m *monMod) collect(st *State) {
	if n, ok := st.g["listn"].(VInt); ok {
		st.g["listn"] = VInt{n.L.addC(1)}
	}
	st.d["list"] = "1"
	for _, k := range []string{"seen1", "seen2", "metric"} {
		delete(st.g, k)
	}
	m.settle(st)
}

func (m *monMod) Lookup(in *Interp, fr *Frame, st *State, mp, k Val, ins ssa.Instruction) (Val, bool) {
	x, ok := ins.(*ssa.Lookup)
	if !ok || m.phase != "render" || !isMetricMap(x.X.Type()) || x.CommaOk {
		return nil, false
	}
	want := st.g["pend"]
	if want == nil || valString(want) != valString(k) {
		return nil, false
	}
	v := nonNil(symVal(x.Type(), freshTerm("stored")))
	st.g["metric"] = v
	return v, true
}

func (m *monMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if m.phase == "" && in.curRoot != nil && fr.parent == nil {
		if _, ok := ins.(*ssa.Return); ok {
			m.done(in, p.st, in.pos(fr, ins))
		}
	}
	if !m.active(in) {
		return
	}
	st, where := p.st, in.pos(fr, ins)
	switch x := ins.(type) {
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok && isMetricMap(rg.X.Type()) {
			m.idle(in, st, where)
			if st.d["range"] == "" {
				var src VPtr
				it, ok := in.get(p, x.Iter).(VTuple)
				if ok = ok && len(it.E) == 1; ok {
					src, ok = it.E[0].(VPtr)
				}
				m.check(in, m.name(in)+" source", ok && m.source(in, st, src), where, "other metrics than those to be looked at are taken")
				st.g["listn"] = VInt{linC(0)}
			}
			m.check(in, m.name(in)+" one walk", st.d["range"] != "done", where, "the metrics are gone through again")
			st.d["range"] = "open"
		}
	case *ssa.Extract:
		n, ok := x.Tuple.(*ssa.Next)
		if !ok {
			return
		}
		rg, ok := n.Iter.(*ssa.Range)
		if !ok || !isMetricMap(rg.X.Type()) {
			return
		}
		t, ok := in.get(p, n).(VTuple)
		if !ok || x.Index >= len(t.E) {
			return
		}
		more := isTrue(t.E[0])
		switch {
		case x.Index == 0 && !more:
			st.d["range"] = "done"
			m.counted(in, p, n)
		case x.Index == 0:
			st.d["pend"] = "1"
		case more:
			if x.Index == 2 {
				st.g["metric"] = t.E[2]
			}
			if st.g["pend"] == nil || x.Index == 2 {
				st.g["pend"] = t.E[x.Index]
			}
			st.g["seen"+string(rune('0'+x.Index))] = t.E[x.Index]
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return
		}
		if st.d["pend"] == "rendered" && isByteSlice(x.Type()) {
			a, ok := sliceOf(in.get(p, x.Call.Args[0]))
			r, ok2 := st.g["bytes"].(VSlice)
			nl, ok3 := sliceOf(in.get(p, x.Call.Args[1]))
			if ok && ok2 && ok3 && sameSlice(st, a, r) && len(nl.R) == 1 && st.num.eq0(nl.Len.addC(-1)) && (&linesMod{}).isNL(in, st, nl.R[0], nl.Off) {
				st.d["pend"] = "joined"
			}
			return
		}
		if st.d["range"] != "open" {
			return
		}
		if e, ok := x.Type().Underlying().(*types.Slice); !ok || !isMetricPtr(e.Elem()) && typeName(e.Elem()) != "string" && e.Elem().String() != "string" {
			return
		}
		a, ok := sliceOf(in.get(p, x.Call.Args[1]))
		if !ok || len(a.R) != 1 || !st.num.eq0(a.Len.addC(-1)) {
			m.check(in, m.name(in)+" collected", false, where, "something other than one metric is collected")
			return
		}
		one := false
		for _, r := range in.load(st, VPtr{Obj: a.R[0], Idx: a.Off}) {
			if one = m.seen(st, r.v); !one {
				break
			}
		}
		m.check(in, m.name(in)+" collected", one && st.d["pend"] == "1", where, "something other than the next metric is collected")
		m.collect(st)
	case *ssa.Slice:
		if m.phase == "parse" {
			m.slice(in, p, x, where)
		}
	}
}

// counted is called when a walk is complete: as many metrics were seen as
// there are in the set.
func (m *monMod) counted(in *Interp, p *Path, n *ssa.Next) {
	st := p.st
	it, ok := in.get(p, n.Iter).(VTuple)
	if !ok || len(it.E) != 1 || st.d["list"] == "" {
		return
	}
	src, ok := it.E[0].(VPtr)
	l, ok2 := st.g["listn"].(VInt)
	if !ok || !ok2 {
		return
	}
	o := st.obj(src.Obj)
	if o.sym == nil || o.written {
		return
	}
	d := mapLen(o).L.sub(l.L)
	st.num = st.num.addCon(d, false).addCon(d.neg(), false)
}

// source tells whether a map is the one whose metrics are to be looked at.
func (m *monMod) source(in *Interp, st *State, src VPtr) bool {
	if s := st.g["set"]; s != nil {
		id, ok := m.mapOf(in, st, s)
		return ok && id == src.Obj
	}
	return false
}

func (m *monMod) slice(in *Interp, p *Path, x *ssa.Slice, where string) {
	st := p.st
	if _, ok := st.g["cur.data"]; !ok {
		return
	}
	old, had := st.g["cur.line"]
	s, ok := in.get(p, x.X).(VSlice)
	d, ok2 := st.g["cur.data"].(VSlice)
	nl, ok3 := st.g["cur.nl"].(VInt)
	if _, split := st.g["cur.lines"]; !ok || !ok2 || !ok3 || split || x.High == nil || len(s.R) != 1 || s.R[0] != d.R[0] || !curRest(st, s) {
		return
	}
	h, ok := in.get(p, x.High).(VInt)
	if !ok || !eqBoth(st, h.L, nl.L) {
		return
	}
	s.Len = h.L
	if bareNext(st, s) {
		m.empty(st, old, had)
		m.line(in, st, where)
	}
}

// all checks that every metric was taken.
func (m *monMod) all(in *Interp, st *State, where string) {
	ok := st.d["range"] == "done" && st.d["pend"] == ""
	if st.d["list"] != "" {
		li, ok1 := st.g["li"].(VInt)
		n, ok2 := st.g["listn"].(VInt)
		ok = ok && ok2 && (ok1 && eqBoth(st, li.L, n.L) || !ok1 && eqBoth(st, n.L, linC(0)))
	}
	m.check(in, m.name(in)+" complete", ok, where, "not all metrics are looked at")
}

func (m *monMod) done(in *Interp, st *State, where string) {
	switch in.curRoot.kind {
	case "nats":
		m.check(in, "receive parses", st.d["parse"] != "", where, "a message is not looked at")
		switch st.d["parse"] {
		case "ok":
			m.all(in, st, where)
		case "err":
			m.check(in, "receive only valid", st.d["stored"] == "", where, "metrics of an invalid message are stored")
		}
	case "http":
		if m.path[in.curRoot.site] == "/metrics" && m.id == "C27" {
			m.check(in, "scrape answered", st.d["page"] == "written", where, "a scrape is not answered with the metrics")
		}
	}
}

func (m *monMod) Sig(in *Interp, st *State) string {
	if !m.active(in) {
		return ""
	}
	m.empty(st, st.g["cur.line"], st.g["cur.line"] != nil)
	return curSig(st)
}

func (m *monMod) entry(c *Ctx, phase, fn string, prep func(in *Interp, st *State, args []Val), end func(in *Interp, o Outcome, where string)) {
	m.phase = phase
	in := newInterp(c.pr, m)
	f := c.pr.fn(fn)
	where := c.pr.posString(f.Pos())
	st := in.globalsState()
	args := in.symArgs(f)
	prep(in, st, args)
	for _, o := range in.runEntry(f, args, nil, st) {
		end(in, o, where)
	}
	c.absorb(in)
	m.phase = ""
}

func (m *monMod) component(c *Ctx) {
	in := newInterp(c.pr, m)
	apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.")
	for _, cp := range componentList {
		if cp.mode == "monitor" {
			runComponent(c, in, cp, func(r *Root, st *State) *State {
				st.d, st.g = map[string]string{}, map[string]Val{}
				if r.kind == "nats" {
					args := in.curPath.env[rootArgKey].(VTuple).E
					p, ok := args[len(args)-1].(VPtr)
					if !ok {
						panic(undecided{"the message received"})
					}
					s := st.obj(p.Obj).typ
					for _, x := range in.load(st, VPtr{Obj: p.Obj, Path: []int{fieldIdx(s, "Data")}}) {
						m.msg, _ = x.v.(VSlice)
					}
				}
				return st
			})
		}
	}
	c.absorb(in)
	same := len(m.put) == 1 && len(m.shown) == 1
	for id := range m.put {
		same = same && m.shown[id]
	}
	c.oblige("one set", same || m.id != "C27", c.pr.posString(c.pr.fn("monitor.Start").Pos()), "the metrics shown are not those which are stored")
}

func newMon(c *Ctx, id string) *monMod {
	return &monMod{c: c, id: id, path: map[ssa.Instruction]string{}, put: map[ObjID]bool{}, shown: map[ObjID]bool{}, own: map[ObjID]bool{}}
}

func init() {
	register(&Property{id: "C26", level: "other", rule: "abstract interpretation of the monitor's subscription, of parsing and of merging metrics: each line parsed, each metric stored, nothing of invalid messages", run: func(c *Ctx) {
		m := newMon(c, "C26")
		m.entry(c, "parse", "prometheus.ParseMetrics", func(in *Interp, st *State, args []Val) {
			curStart(st, args[0].(VSlice))
		}, func(in *Interp, o Outcome, where string) {
			st := o.st
			if st.d["bad"] != "" {
				e := retN(o.ret, 1)
				_, isNil := e.(VNil)
				if !mustNil(st, retN(o.ret, 0)) {
					m.part = true
				}
				m.check(in, "parse error", !isNil && !mustNil(st, e), where, "an invalid line is not reported")
				return
			}
			m.empty(st, st.g["cur.line"], st.g["cur.line"] != nil)
			m.check(in, "parse valid", mustNil(st, retN(o.ret, 1)), where, "valid metrics are reported as invalid")
			m.check(in, "parse all", curDone(st) && st.d["line"] != "new" && st.d["pend"] == "", where, "not every line is stored")
			if st.d["stored"] != "" {
				id, ok := m.mapOf(in, st, retN(o.ret, 0))
				m.check(in, "parse returned", ok && m.own[id], where, "the metrics are stored elsewhere than in the set returned")
			}
		})
		m.component(c)
		m.entry(c, "update", "(*prometheus.MetricSet).UpdateFromSet", func(in *Interp, st *State, args []Val) {
			st.g["set"] = args[1]
		}, func(in *Interp, o Outcome, where string) { m.all(in, o.st, where) })
		for _, k := range []string{"one set", "receive whole", "receive stores", "receive complete", "receive only valid", "parse line", "parse stores", "parse all", "parse error", "parse valid", "parse returned", "update stores", "update complete"} {
			if k != "one set" {
				c.need(k, 1)
			}
		}
	}})
	register(&Property{id: "C27", level: "other", rule: "abstract interpretation of the monitor's HTTP handler and of rendering a set of metrics: each stored metric rendered once on its own line, and exactly that written", run: func(c *Ctx) {
		m := newMon(c, "C27")
		m.component(c)
		m.entry(c, "render", "(*prometheus.MetricSet).ToBytes", func(in *Interp, st *State, args []Val) {
			st.g["set"] = args[0]
		}, func(in *Interp, o Outcome, where string) { m.all(in, o.st, where) })
		for _, k := range []string{"scrape page", "scrape answered", "render metric", "render bytes", "render newline", "render complete"} {
			c.need(k, 1)
		}
	}})
}
