package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a filter worker does with the lines of a received block: which lines
// it drops, which output each other line is added to, what it counts, and
// what it publishes before it waits for the next block.
//
// Ghosts: the cursor (see p_cursor.go); st.d["line"] is what happened to the
// current line so far: new, parsed, bad, hit (a rule matched), out (added to
// a rule's output), junk (added to the junkyard output); "tried" counts the
// rules which did not match; "hit" is the index of the one that did.

type filterMod struct {
	BaseModule
	c    *Ctx
	want map[string]bool
	cfg  VPtr
	in   *Interp
}

func (m *filterMod) check(in *Interp, prop, key string, ok bool, where, msg string) {
	if in.rec && m.want[prop] {
		m.c.oblige(prop+":"+key, ok, where, msg)
		m.c.inst(prop + " " + key)
	}
}

func (m *filterMod) only(p string) bool { return m.want[p] && len(m.want) == 1 }

// timing: what matters for the times of lines alone.
func (m *filterMod) timing(name string) bool {
	switch name {
	case "influx.ExtractNanos", "influx.ExtractTimestamp", "influx.ParseTags":
		return true
	}
	return false
}

func (m *filterMod) inWorker(in *Interp) bool {
	r := in.curRoot
	if r == nil || r.kind != "go" {
		return false
	}
	f := r.states[0].env[rootFnKey].(VFunc).Fn
	return reaches(in.pr, f, func(n string) bool { return n == "influx.ParseTags" })
}

// ruleCount is the number of rules the worker has.
func ruleCount(st *State) *Lin {
	for _, x := range st.heap {
		if x.kind == oCell && typeName(x.typ) == "filter.RuleSet" {
			w := x.val
			if w == nil {
				w = cellInit(x)
			}
			if s, ok := sliceOf(getPath(w, []int{0})); ok {
				return s.Len
			}
		}
	}
	return nil
}

func gInt(st *State, k string) *Lin {
	if v, ok := st.g[k].(VInt); ok {
		return v.L
	}
	return linC(0)
}

func isMatch(c *Call) bool {
	if c.fn == nil {
		return false
	}
	if ci, ok := c.instr.(ssa.CallInstruction); !ok || ci.Common().StaticCallee() != nil {
		return false
	}
	s := c.fn.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 1 {
		return false
	}
	p, ok := s.Params().At(0).Type().(*types.Pointer)
	b, ok2 := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && ok2 && b.Kind() == types.Bool && typeName(p.Elem()) == "filter.parsedLine"
}

func (m *filterMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	if !m.inWorker(in) {
		return nil, false
	}
	where := in.pos(c.fr, c.instr)
	if isMatch(c) && !m.only("C13") {
		n, ok := st.g["rule.at"].(VInt)
		m.check(in, "C11", "in order", ok && (st.d["line"] == "parsed") && eqBoth(st, n.L, gInt(st, "tried")), where, "the rules are not tried one after the other, from the first until one matches")
		s2 := st.clone()
		if ok {
			st.g["hit"] = n
		}
		st.d["line"] = "hit"
		s2.g["tried"] = VInt{gInt(st, "tried").addC(1)}
		return []Outcome{{st, vbool(true)}, {s2, vbool(false)}}, true
	}
	if m.only("C13") && !m.timing(c.name) {
		return nil, false
	}
	switch c.name {
	case "influx.ExtractNanos", "influx.ExtractTimestamp":
		s := c.slice(0)
		if !curIs(st, s) {
			m.line(in, st, where)
			if !curNext(st, s) {
				return nil, false
			}
		}
		none := st.clone()
		r := freshLin("off", i128(1), i128(maxLen))
		ts := symVal(c.resType(0), freshTerm("ts"))
		out := []Outcome{{none, VTuple{[]Val{vint(-1), vint(-1)}}}}
		if n := st.num.assumeLe(r.sub(s.Len)); n != nil {
			// -1 stands for none
			st.num = n.addNe(ts.(VInt).L.addC(1))
			if !m.only("C11") {
				st.g["ts"] = ts
			}
			out = append(out, Outcome{st, VTuple{[]Val{ts, VInt{r}}}})
		}
		return out, true
	case "influx.ParseTags":
		s := c.slice(0)
		if !curIs(st, s) {
			m.line(in, st, where)
			m.check(in, "C11", "lines", curNext(st, s), where, "the received lines are not looked at one after the other")
			st.d["line"] = "new"
		}
		m.check(in, "C11", "once", st.d["line"] == "new", where, "a line is filtered more than once")
		if !m.only("C11") {
			m.window(in, st, where, true)
		}
		if !m.only("C13") {
			st.g["tried"] = vint(0)
		}
		delete(st.g, "escaped")
		delete(st.g, "ts")
		outs := models[c.name](c)
		for i := range outs {
			if mustNil(outs[i].st, retN(outs[i].ret, 3)) {
				outs[i].st.d["line"] = "parsed"
			} else {
				outs[i].st.d["line"] = "bad"
				delete(outs[i].st.g, "tried")
			}
		}
		return outs, true
	case "(*filter.parsedLine).SortTags":
		return m.sortTags(c), true
	case "(*stats.Stats).Inc":
		n, ok := c.constStr(1)
		if !ok {
			n = "?"
		}
		m.count(in, st, n, where)
		return nil, false
	case "(*stats.AnonStats).Inc":
		i, ok := c.arg(1).(VInt)
		h, ok2 := st.g["hit"].(VInt)
		l := st.d["line"]
		m.check(in, "C15", "rule counter", ok && ok2 && (l == "hit" || l == "out") && eqBoth(st, i.L, h.L), where, "the counter of another rule than the one that matched is incremented")
		m.count(in, st, "rule", where)
		m.tidy(st)
		return nil, false
	}
	if strings.HasSuffix(c.name, "bytes.Buffer).Write") || strings.HasSuffix(c.name, "bytes.Buffer).WriteString") {
		n := m.write(c, where)
		return []Outcome{{st, VTuple{[]Val{VInt{n}, VNil{}}}}}, true
	}
	if !m.want["C11"] {
		return nil, false
	}
	switch c.name {
	case "(*bytes.Buffer).Len":
		if !m.sending(st) {
			return nil, false
		}
		s2 := st.clone()
		if m.isRuleBuf(st, c.arg(0)) {
			st.d["buf"], s2.d["buf"] = "full", "done"
		} else if m.isJunk(st, c.arg(0)) {
			st.d["junkbuf"], s2.d["junkbuf"] = "full", "done"
		}
		return []Outcome{{st, VInt{freshLin("buffered", i128(1), i128(maxLen))}}, {s2, vint(0)}}, true
	case "(*bytes.Buffer).Bytes":
		if m.isRuleBuf(st, c.arg(0)) {
			st.d["pub"] = "rule"
		} else if m.isJunk(st, c.arg(0)) {
			st.d["pub"] = "junk"
		}
		return []Outcome{{st, nonNil(symVal(c.resType(0), freshTerm("buffered")))}}, true
	case "(*bytes.Buffer).Reset":
		if m.isRuleBuf(st, c.arg(0)) {
			m.check(in, "C11", "kept", st.d["buf"] == "published" || st.d["buf"] == "done", where, "lines which were not published are thrown away")
			st.d["buf"] = "done"
		} else if m.isJunk(st, c.arg(0)) {
			m.check(in, "C11", "kept junk", st.d["junkbuf"] == "published" || st.d["junkbuf"] == "done", where, "junkyard lines which were not published are thrown away")
			st.d["junkbuf"] = "done"
		}
	}
	if strings.HasSuffix(c.name, ").Publish") && len(c.args) == 3 {
		m.publish(c, where)
	}
	return nil, false
}

// sending reports whether all lines were dealt with.
func (m *filterMod) sending(st *State) bool {
	if _, ok := st.g["cur.data"]; !ok {
		return true
	}
	switch st.d["line"] {
	case "parsed", "hit":
		return false
	}
	return curDone(st)
}

func (m *filterMod) sortTags(c *Call) []Outcome {
	// the line stays as it is, or is replaced by a sorted version
	st := c.st
	p, ok := c.arg(0).(VPtr)
	if !ok || !st.hasObj(p.Obj) {
		panic(undecided{"the tags of something unknown are sorted"})
	}
	o := st.obj(p.Obj)
	i := fieldIdx(o.typ, "Escaped")
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	old := getPath(v, append(append([]int(nil), p.Path...), i))
	s2 := st.clone()
	c.havocArg(0)
	nv := st.obj(p.Obj).val
	if s, ok := sliceOf(getPath(nv, []int{i})); ok {
		if prev, ok := sliceOf(old); ok && m.isLine(st, prev) {
			st.g["escaped"] = s
		}
	}
	c2 := *c
	c2.st = s2
	c2.havocArg(0)
	n := s2.mut(p.Obj)
	n.val = setPath(n.val, []int{i}, old)
	return []Outcome{{st, VTuple{}}, {s2, VTuple{}}}
}

// isLine reports whether s is the current line, or its sorted version.
func (m *filterMod) isLine(st *State, s VSlice) bool {
	if e, ok := st.g["escaped"].(VSlice); ok {
		return len(s.R) > 0 && sameSlice(st, e, s)
	}
	return curIs(st, s)
}

func isBuffer(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeName(p.Elem()) == "bytes.Buffer"
}

func (m *filterMod) isJunk(st *State, v Val) bool {
	b, ok := st.g["junk"]
	return ok && sameRes(b, v)
}

func (m *filterMod) isRuleBuf(st *State, v Val) bool {
	b, ok := st.g["buf"]
	return ok && sameRes(b, v)
}

// write adds to an output; what the outputs hold is not followed further.
func (m *filterMod) write(c *Call, where string) (n *Lin) {
	st, in := c.st, c.in
	s, ok := sliceOf(c.arg(1))
	if n = freshLin("written", i128(0), i128(maxLen)); ok {
		n = s.Len
	}
	m.check(in, "C11", "whole", ok && m.isLine(st, s), where, "something other than the current line is added to an output")
	if m.isRuleBuf(st, c.arg(0)) {
		h, ok := st.g["hit"].(VInt)
		i := st.g["buf.at"].(VInt)
		m.check(in, "C11", "rule output", ok && st.d["line"] == "hit" && eqBoth(st, h.L, i.L), where, "a line is added to an output which is not that of the first rule that matches it")
		st.d["line"] = "out"
		m.tidy(st)
		return
	}
	all := ruleCount(st)
	m.check(in, "C11", "junkyard", m.isJunk(st, c.arg(0)) && st.d["line"] == "parsed" && all != nil && eqBoth(st, all, gInt(st, "tried")), where, "a line is added to the junkyard although not all rules were tried, or one matched")
	st.d["line"] = "junk"
	m.tidy(st)
	return
}

// tidy forgets what is not needed any more about a line.
func (m *filterMod) tidy(st *State) {
	l := st.d["line"]
	if l != "out" && l != "junk" {
		return
	}
	for _, k := range []string{"tried", "escaped", "rule.at", "buf", "buf.at", "subject", "subject.at", "junk"} {
		delete(st.g, k)
	}
	if st.d["n:rule"] != "" || l == "junk" {
		delete(st.g, "hit")
	}
}

func (m *filterMod) publish(c *Call, where string) {
	st, in := c.st, c.in
	switch st.d["pub"] {
	case "rule":
		i, ok := st.g["subject.at"].(VInt)
		b, ok2 := st.g["buf.at"].(VInt)
		sv, ok3 := st.g["subject"]
		m.check(in, "C11", "subject", ok && ok2 && ok3 && eqBoth(st, i.L, b.L) && valString(sv) == valString(c.arg(1)), where, "the output of a rule is not published to the subject of that rule")
		st.d["buf"] = "published"
		delete(st.g, "subject")
		delete(st.g, "subject.at")
	case "junk":
		want := m.strField(st, "NATSSubjectJunkyard")
		s, ok := unwrap(c.arg(1)).(VStr)
		m.check(in, "C11", "junk subject", ok && s.T == want.T, where, "the junkyard output is not published to the junkyard subject")
		st.d["junkbuf"] = "published"
	default:
		m.check(in, "C11", "published", false, where, "something other than an output is published")
	}
	delete(st.d, "pub")
}

func (m *filterMod) strField(st *State, name string) VStr {
	o := st.obj(m.cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	s, _ := getPath(v, []int{fieldIdx(o.typ, name)}).(VStr)
	return s
}

// window checks that a line is filtered, or dropped, because of its time.
func (m *filterMod) window(in *Interp, st *State, where string, inside bool) {
	now, ok := st.g["now"].(VInt)
	if !ok {
		m.check(in, "C13", "known", false, where, "the time of a line is not compared with the current time")
		return
	}
	lo, ts, hi := m.times(st, now.L)
	if inside {
		m.check(in, "C13", "inside", st.num.lt(lo.sub(ts)) && st.num.lt(ts.sub(hi)), where, "a line is accepted although its time differs from now by max_time_delta or more")
	} else {
		m.check(in, "C13", "outside", false, where, "a line is dropped although its time differs from now by less than max_time_delta")
	}
}

func (m *filterMod) times(st *State, now *Lin) (lo, ts, hi *Lin) {
	d := cfgDur(st, m.cfg, "MaxTimeDelta")
	if d == nil {
		panic(undecided{"the accepted difference is not known"})
	}
	ts = now
	if v, ok := st.g["ts"].(VInt); ok {
		ts = v.L
	}
	return now.sub(d), ts, now.add(d)
}

// Sig settles lines which are proved to be outside of the window.
func (m *filterMod) Sig(in *Interp, st *State) string {
	if st.d["line"] == "new" && !m.only("C11") {
		if now, ok := st.g["now"].(VInt); ok {
			lo, ts, hi := m.times(st, now.L)
			if st.num.le(ts.sub(lo)) || st.num.le(hi.sub(ts)) {
				st.d["line"] = "late"
				delete(st.g, "ts")
			}
		}
	}
	m.settle(st)
	return curSig(st)
}

// settle forgets how a line ended if everything is as it should be.
func (m *filterMod) settle(st *State) {
	want := ""
	switch st.d["line"] {
	case "bad":
		want = "processed"
	case "out":
		want = "passed,processed,rule"
	case "junk":
		want = "processed,rejected"
	case "late":
		want = "invalid_time,processed"
	default:
		return
	}
	var have []string
	for k := range st.d {
		if strings.HasPrefix(k, "n:") {
			have = append(have, k[2:])
		}
	}
	sort.Strings(have)
	if m.want["C15"] && strings.Join(have, ",") != want {
		return
	}
	if m.want["C13"] && st.d["line"] == "late" {
		return
	}
	if m.want["C15"] {
		for _, k := range strings.Split(want, ",") {
			// (lines for which this is not so are found when the next one is taken)
			m.c.oblige("C15:"+k, true, "", "")
			m.c.inst("C15 " + k)
		}
	}
	m.clearLine(st)
	st.d["line"] = "ok"
}

func (m *filterMod) count(in *Interp, st *State, name, where string) {
	if !m.want["C15"] {
		return
	}
	switch name {
	case "processed", "passed", "rejected", "invalid_time", "rule":
	default:
		return
	}
	_, busy := st.g["cur.line"]
	m.check(in, "C15", "counted once "+name, busy && st.d["line"] != "ok" && st.d["n:"+name] == "", where, "the "+name+" counter is incremented more than once for a line, or without one")
	st.d["n:"+name] = "1"
}

// line is called when the next line is taken, or there is none left.
func (m *filterMod) line(in *Interp, st *State, where string) {
	l := st.d["line"]
	cur, ok := st.g["cur.line"].(VSlice)
	if ok && l != "" && l != "ok" {
		empty := st.num.le(cur.Len)
		n := func(k string) bool { return st.d["n:"+k] != "" }
		if l == "new" && !empty && !m.only("C11") {
			m.window(in, st, where, false)
		}
		if l == "late" {
			m.check(in, "C13", "outside", true, where, "")
		}
		if m.only("C13") {
			m.clearLine(st)
			return
		}
		if l == "parsed" || l == "hit" {
			m.check(in, "C11", "handed on", false, where, "a line is lost: it is neither added to the output of a rule nor to the junkyard")
		}
		if !empty {
			m.check(in, "C15", "processed", n("processed"), where, "a line is not counted as processed")
			m.check(in, "C15", "invalid_time", n("invalid_time") == (l == "late"), where, "lines dropped because of their time and the invalid_time counter do not agree")
			m.check(in, "C15", "passed", n("passed") == (l == "out"), where, "lines passed on and the passed counter do not agree")
			m.check(in, "C15", "rule", n("rule") == (l == "out"), where, "lines passed on and the counters of the rules do not agree")
			m.check(in, "C15", "rejected", n("rejected") == (l == "junk"), where, "lines no rule matched and the rejected counter do not agree")
		} else {
			m.check(in, "C15", "nothing", !n("processed") && !n("invalid_time") && !n("passed") && !n("rejected") && !n("rule"), where, "something is counted without a line")
		}
	}
	m.clearLine(st)
}

func (m *filterMod) clearLine(st *State) {
	delete(st.d, "line")
	for k := range st.d {
		if strings.HasPrefix(k, "n:") {
			delete(st.d, k)
		}
	}
	for _, k := range []string{"ts", "hit", "tried", "escaped", "rule.at", "junk"} {
		delete(st.g, k)
	}
}

func (m *filterMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if !m.inWorker(in) {
		return
	}
	if ptr.Idx == nil {
		if p, ok := ins.(ssa.Value); ok && isBuffer(p.Type()) && !m.only("C13") {
			st.g["junk"] = v
		}
		return
	}
	where := in.pos(fr, ins)
	old, had := st.g["cur.line"]
	next, ok := curLoad(st, ptr, v)
	if next {
		cur := st.g["cur.line"]
		if had {
			st.g["cur.line"] = old
		}
		m.line(in, st, where)
		st.g["cur.line"] = cur
		st.d["line"] = "new"
		return
	}
	if m.only("C13") {
		return
	}
	m.check(in, "C11", "lines", ok, where, "the received lines are not looked at one after the other")
	o := st.heap[ptr.Obj]
	if o == nil {
		return
	}
	switch {
	case typeName(o.typ) == "filter.Rule":
		st.g["rule.at"] = VInt{ptr.Idx}
		if !m.want["C11"] {
			return
		}
		if s, ok := v.(VStr); ok {
			st.g["subject"], st.g["subject.at"] = s, VInt{ptr.Idx}
		} else if s, ok := v.(VStruct); ok {
			if x, ok := s.field(fieldIdx(o.typ, "subject")).(VStr); ok {
				st.g["subject"], st.g["subject.at"] = x, VInt{ptr.Idx}
			}
		}
	case isString(o.typ):
		if s, ok := v.(VStr); ok && m.want["C11"] {
			st.g["subject"], st.g["subject.at"] = s, VInt{ptr.Idx}
		}
	default:
		if !isBuffer(o.typ) {
			return
		}
		if m.sending(st) && m.want["C11"] {
			m.line(in, st, where)
			n := gInt(st, "sent")
			if eqBoth(st, ptr.Idx, n) {
				m.sent(in, st, where)
				st.g["sent"] = VInt{n.addC(1)}
				st.d["buf"] = "loaded"
			} else {
				m.check(in, "C11", "all outputs", eqBoth(st, ptr.Idx, n.addC(-1)), where, "the output of a rule is skipped")
			}
		}
		st.g["buf"], st.g["buf.at"] = v, VInt{ptr.Idx}
	}
}

// sent checks that the output looked at last is empty now.
func (m *filterMod) sent(in *Interp, st *State, where string) {
	if b := st.d["buf"]; b != "" {
		m.check(in, "C11", "sent", b == "done", where, "the output of a rule is not published and emptied")
	}
	delete(st.d, "buf")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *filterMod) Store(in *Interp, fr *Frame, st *State, ptr VPtr, old, v Val, ins ssa.Instruction) {
	if !m.inWorker(in) || ptr.Idx == nil || !st.hasObj(ptr.Obj) || !isString(st.obj(ptr.Obj).typ) {
		return
	}
	if s, ok := st.g["subject"]; ok && valString(s) == valString(v) {
		i := st.g["subject.at"].(VInt)
		m.check(in, "C11", "subjects", eqBoth(st, i.L, ptr.Idx), in.pos(fr, ins), "the list of subjects is not in the order of the rules")
	}
}

func (m *filterMod) Post(c *Call, o *Outcome) {
	if !m.inWorker(c.in) {
		return
	}
	switch c.name {
	case "bytes.SplitAfter", "bytes.IndexByte", "bytes.Index", "bytes.IndexRune":
		curPost(c, o)
	case "(time.Time).UnixNano":
		o.st.g["now"] = o.ret
	}
}

func (m *filterMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if m.inWorker(in) && isByteSlice(t) {
		v := nonNil(symVal(t, freshTerm("received")))
		curStart(st, v.(VSlice))
		delete(st.g, "now")
		return v
	}
	return nil
}

func (m *filterMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	st := p.st
	if x, ok := ins.(*ssa.Slice); ok && m.inWorker(in) {
		if s, ok := curSlice(in, p, x); ok {
			m.line(in, st, in.pos(fr, ins))
			curNext(st, s)
			st.d["line"] = "new"
		}
		return
	}
	sel, ok := ins.(*ssa.Select)
	if !ok || !sel.Blocking || !m.inWorker(in) {
		return
	}
	where := in.pos(fr, ins)
	if _, busy := st.g["cur.data"]; busy {
		m.line(in, st, where)
		m.check(in, "C11", "all lines", curDone(st), where, "not all received lines are looked at")
		m.check(in, "C13", "all lines", curDone(st), where, "lines are dropped without looking at their time")
		m.sent(in, st, where)
		n := ruleCount(st)
		m.check(in, "C11", "all outputs", n != nil && eqBoth(st, n, gInt(st, "sent")), where, "not all outputs are published before more data is received")
		m.check(in, "C11", "junk sent", st.d["junkbuf"] == "done", where, "the junkyard output is not published and emptied before more data is received")
	}
	curClear(st)
	for _, k := range []string{"sent", "buf", "buf.at", "subject", "subject.at", "rule.at", "now", "ts", "hit", "tried", "escaped"} {
		delete(st.g, k)
	}
	for _, k := range []string{"buf", "junkbuf", "pub", "line"} {
		delete(st.d, k)
	}
}

func runFilter(c *Ctx, props ...string) {
	want := map[string]bool{}
	for _, p := range props {
		want[p] = true
	}
	m := &filterMod{c: c, want: want}
	in := newInterp(c.pr, m)
	m.in = in
	in.onConfig = func(p VPtr) { m.cfg = p }
	in.wraps = true
	apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
	useContracts(in)
	hide := in.opaque
	in.opaque = func(k *Call) bool { return hide(k) && (m.only("C13") || k.name != "(*filter.RuleSet).LookupParsed") }
	for _, cp := range componentList {
		if cp.mode == "filter" {
			runComponent(c, in, cp, func(r *Root, st *State) *State {
				st.d, st.g = map[string]string{}, map[string]Val{}
				// times in nanoseconds do not overflow
				if d := cfgDur(st, m.cfg, "MaxTimeDelta"); d != nil {
					n := st.num.assumeLe(d.addC(-1 << 61))
					if n != nil {
						n = n.assumeLe(d.neg().addC(-1 << 61))
					}
					if n == nil {
						return nil
					}
					st.num = n
				}
				return st
			})
		}
	}
	c.absorb(in)
}

func init() {
	reg := func(id, rule string, need map[string]int) {
		register(&Property{id: id, level: "other", rule: "abstract interpretation of the filter's worker goroutines: " + rule, run: func(c *Ctx) {
			runFilter(c, id)
			for k, n := range need {
				c.need(id+" "+k, n)
			}
		}})
	}
	reg("C11", "the rules tried, the output each line is added to, and the subject each output is published to", map[string]int{"in order": 1, "rule output": 1, "junkyard": 1, "subject": 1, "junk subject": 1, "all outputs": 1, "whole": 1})
	reg("C13", "the time of every line that is accepted or dropped", map[string]int{"inside": 1, "outside": 1})
	reg("C15", "the counters incremented for every line", map[string]int{"processed": 1, "passed": 1, "rejected": 1, "invalid_time": 1, "rule counter": 1})
}
