package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22 and C23: the windows of a downsampler. Three windows are open at any
// time, which follow each other without gaps; every line is added to the one
// its time falls into, a window is published once, when the one after it has
// ended, and lines are only refused when no open window is theirs.
//
// Ghosts: b0, b1, b2, ... are the open windows, in order once the worker
// waits; "now" is the latest reading of the clock, "al" the end of some
// window; the cursor (see p_cursor.go) says which line is next.

type downMod struct {
	BaseModule
	c    *Ctx
	want map[string]bool
	cfg  VPtr
	ids  map[*Root][3]ObjID
}

func (m *downMod) check(in *Interp, prop, key string, ok bool, where, msg string) {
	if in.rec && m.want[prop] {
		m.c.oblige(prop+":"+key, ok, where, msg)
		m.c.inst(prop + " " + key)
	}
}

func (m *downMod) inWorker(in *Interp) bool {
	r := in.curRoot
	if r == nil || r.kind != "go" {
		return false
	}
	f := r.states[0].env[rootFnKey].(VFunc).Fn
	return reaches(in.pr, f, func(n string) bool { return n == "influx.ExtractTimestamp" })
}

func (m *downMod) period(st *State) *Lin {
	p := cfgDur(st, m.cfg, "DownsamplePeriod")
	if p == nil {
		panic(undecided{"the downsample period is not known"})
	}
	return p
}

// end is the end of a window.
func (m *downMod) end(st *State, v Val) *Lin {
	p, ok := unwrap(v).(VPtr)
	if !ok || !st.hasObj(p.Obj) || len(p.Path) > 0 {
		return nil
	}
	o := st.obj(p.Obj)
	w := o.val
	if w == nil {
		w = cellInit(o)
	}
	s, ok := w.(VStruct)
	t, ok2 := o.typ.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil
	}
	for i := 0; i < t.NumFields(); i++ {
		if typeName(t.Field(i).Type()) == "time.Time" {
			if x, ok := s.field(i).(VInt); ok {
				return x.L
			}
		}
	}
	return nil
}

func bkey(i int) string { return "b" + strconv.Itoa(i) }

// open gives the open windows.
func (m *downMod) open(st *State) (out []Val) {
	for i := 0; i < 8; i++ {
		if v, ok := st.g[bkey(i)]; ok {
			out = append(out, v)
		}
	}
	return
}

func (m *downMod) setOpen(st *State, bs []Val) {
	for i := 0; i < 8; i++ {
		delete(st.g, bkey(i))
	}
	for i, b := range bs {
		st.g[bkey(i)] = b
	}
}

// order sorts the open windows, if they are three which follow each other.
func (m *downMod) order(st *State) []Val {
	bs := m.open(st)
	if len(bs) != 3 {
		return nil
	}
	p := m.period(st)
	for _, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		a, b, c := m.end(st, bs[o[0]]), m.end(st, bs[o[1]]), m.end(st, bs[o[2]])
		if a == nil || b == nil || c == nil {
			return nil
		}
		if eqBoth(st, b, a.add(p)) && eqBoth(st, c, b.add(p)) {
			return []Val{bs[o[0]], bs[o[1]], bs[o[2]]}
		}
	}
	return nil
}

func (m *downMod) isOpen(st *State, v Val) int {
	for i, b := range m.open(st) {
		if sameRes(b, v) {
			return i
		}
	}
	return -1
}

// multiple gives the end of a window which equals l.
func (m *downMod) multiple(st *State, l *Lin) *Lin {
	al, ok := st.g["al"].(VInt)
	if !ok {
		return nil
	}
	p := m.period(st)
	for _, k := range []int64{0, 1, -1, 2, -2, 3, -3} {
		if e := al.L.add(p.scale(k)); eqBoth(st, e, l) {
			return e
		}
	}
	return nil
}

// current tells whether the second window is known not to have ended at the
// time last read from the clock.
func (m *downMod) current(st *State) bool {
	now, ok := st.g["now"].(VInt)
	bs := m.order(st)
	if !ok || bs == nil {
		return false
	}
	return st.num.lt(now.L.sub(m.end(st, bs[1])))
}

func (m *downMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	if !m.inWorker(in) {
		return nil, false
	}
	where := in.pos(c.fr, c.instr)
	switch c.name {
	case "(time.Time).Truncate":
		t, ok := c.arg(0).(VInt)
		d, ok2 := c.arg(1).(VInt)
		if !ok || !ok2 || !eqBoth(st, d.L, m.period(st)) {
			return nil, false
		}
		if e := m.multiple(st, t.L); e != nil {
			return c.outs(VInt{e}), true
		}
		outs := models[c.name](c)
		for _, o := range outs {
			if _, ok := o.st.g["al"]; !ok {
				o.st.g["al"] = o.ret
			}
		}
		return outs, true
	case "(time.Time).Round":
		return c.outs(VInt{freshLin("rounded", timeLo, timeHi)}), true
	case "time.Now":
		if m.current(st) {
			st.d["looked"] = "1"
		}
		outs := models[c.name](c)
		for _, o := range outs {
			o.st.g["now"] = o.ret
			if o.st.d["first"] == "" {
				o.st.d["first"] = "1"
				o.st.g["start"] = o.ret
			}
			if o.st.d["untimed"] == "1" {
				o.st.g["ts"] = o.ret
				o.st.d["untimed"] = "2"
			}
		}
		return outs, true
	case "influx.ExtractTimestamp", "influx.ExtractNanos":
		s := c.slice(0)
		if !curIs(st, s) && !m.next(in, st, s, where) {
			return nil, false
		}
		none := st.clone()
		none.d["untimed"] = "1"
		delete(none.g, "ts")
		if n, ok := none.g["now"]; ok {
			none.g["ts"] = n
		}
		none.g["rest"] = VInt{s.Len}
		r := freshLin("off", i128(1), i128(maxLen))
		ts := symVal(c.resType(0), freshTerm("ts"))
		out := []Outcome{{none, VTuple{[]Val{vint(-1), vint(-1)}}}}
		if n := st.num.assumeLe(r.sub(s.Len)); n != nil {
			st.num = n
			st.g["ts"] = ts
			st.d["untimed"] = ""
			st.g["rest"] = VInt{r.addC(-1)}
			out = append(out, Outcome{st, VTuple{[]Val{ts, VInt{r}}}})
		}
		return out, true
	case "time.After", "time.NewTimer", "(*time.Timer).Reset":
		i := 0
		if strings.HasSuffix(c.name, "Reset") {
			i = 1
		}
		st.g["wait"] = c.arg(i)
		return nil, false
	}
	switch {
	case strings.HasSuffix(c.name, "ucket).AddLine"):
		m.add(c, where)
		outs := c.outs(symVal(c.resType(0), freshTerm("errs")))
		for _, o := range outs {
			o.st.d["line"] = "added"
		}
		return outs, true
	case strings.HasSuffix(c.name, "ucket).Bytes"):
		return m.emit(c, where), true
	case strings.HasSuffix(c.name, ").Publish") && len(c.args) == 3 && m.want["C23"]:
		return m.publish(c, where)
	case c.name == "batchsplitter.New" && m.want["C23"]:
		s, ok := sliceOf(c.arg(0))
		if o, ok2 := st.g["out"].(VSlice); ok && ok2 && sameSlice(st, o, s) && st.d["out"] == "due" {
			st.d["out"] = "split"
			delete(st.g, "out")
		} else {
			m.check(in, "C23", "split", false, where, "something other than the lines of a window is split into messages, or the same lines are split again")
		}
		return c.outs(nonNil(symVal(c.resType(0), freshTerm("splitter")))), true
	case strings.HasSuffix(c.name, "plitter).Next") && m.want["C23"]:
		m.check(in, "C23", "each part", st.d["part"] != "due", where, "a part of a window is not published")
		if st.d["out"] != "split" {
			return c.outs(vbool(false)), true
		}
		s2 := st.clone()
		st.d["part"] = "due"
		s2.d["out"] = "done"
		delete(s2.d, "part")
		return []Outcome{{st, vbool(true)}, {s2, vbool(false)}}, true
	case strings.HasSuffix(c.name, "plitter).Chunk") && m.want["C23"]:
		v := nonNil(symVal(c.resType(0), freshTerm("part")))
		st.g["part"] = v
		return c.outs(v), true
	}
	return nil, false
}

// next takes the next line if s is it.
func (m *downMod) next(in *Interp, st *State, s VSlice, where string) bool {
	if _, split := st.g["cur.lines"]; split {
		m.check(in, "C22", "lines", false, where, "the time of something else than the current line is looked at")
		return true
	}
	if _, ok := st.g["cur.data"]; !ok {
		return false
	}
	m.line(in, st, where)
	ok := bareNext(st, s)
	m.check(in, "C22", "lines", ok, where, "the received lines are not looked at one after the other")
	if ok {
		m.taken(st)
	}
	return true
}

// bareNext makes s the current line if it follows the line feed of the one
// before, and ends where the next line feed is.
func bareNext(st *State, s VSlice) bool {
	d, ok := st.g["cur.data"].(VSlice)
	if !ok || len(s.R) != 1 || s.R[0] != d.R[0] {
		return false
	}
	pos := st.g["cur.pos"].(VInt).L
	nl, ok := st.g["cur.nl"].(VInt)
	if !ok || !eqBoth(st, s.Off, pos) {
		return false
	}
	switch {
	case st.num.le(nl.L.neg()) && eqBoth(st, s.Len, nl.L):
		st.g["cur.pos"] = VInt{pos.add(s.Len).addC(1)}
	case st.num.lt(nl.L) && eqBoth(st, pos.add(s.Len), d.Off.add(d.Len)):
		st.g["cur.pos"] = VInt{pos.add(s.Len)}
	default:
		return false
	}
	delete(st.g, "cur.nl")
	st.g["cur.line"] = s
	return true
}

func (m *downMod) taken(st *State) {
	st.d["line"] = "new"
	delete(st.d, "untimed")
	delete(st.d, "err")
	delete(st.g, "ts")
	delete(st.g, "rest")
}

// add is called when a line is added to a window.
func (m *downMod) add(c *Call, where string) {
	st, in := c.st, c.in
	b := c.arg(0)
	m.check(in, "C22", "open", m.isOpen(st, b) >= 0, where, "a line is added to a window which is not open")
	m.check(in, "C22", "once", st.d["line"] == "new", where, "a line is added twice")
	e := m.end(st, b)
	ts, ok := st.g["ts"].(VInt)
	p := m.period(st)
	m.check(in, "C22", "window", e != nil && ok && st.num.lt(ts.L.sub(e)) && st.num.le(e.sub(p).sub(ts.L)), where, "a line is added to a window its time does not fall into")
	s, ok := sliceOf(c.arg(1))
	cur, ok2 := st.g["cur.line"].(VSlice)
	rest, ok3 := st.g["rest"].(VInt)
	m.check(in, "C22", "whole", ok && ok2 && ok3 && len(s.R) == 1 && len(cur.R) == 1 && s.R[0] == cur.R[0] && eqBoth(st, s.Off, cur.Off) && eqBoth(st, s.Len, rest.L), where, "something other than the current line without its time is added to a window")
}

// emit is called when a window is turned into lines.
func (m *downMod) emit(c *Call, where string) []Outcome {
	st, in := c.st, c.in
	bs := m.order(st)
	if bs == nil {
		bs = m.open(st)
	}
	now, ok := st.g["now"].(VInt)
	first := len(bs) > 1 && sameRes(bs[0], c.arg(0))
	m.check(in, "C22", "oldest", first, where, "a window other than the oldest open one is published")
	if first {
		e := m.end(st, bs[1])
		m.check(in, "C22", "ended", ok && e != nil && st.num.le(e.sub(now.L)), where, "a window is published before the one after it has ended")
		m.setOpen(st, bs[1:])
	}
	m.check(in, "C23", "one window", st.d["out"] == "" || st.d["out"] == "done", where, "a window is published before all of the one before it was")
	st.d["looked"] = "1"
	v := symVal(c.resType(0), freshTerm("window"))
	if m.want["C23"] {
		st.g["out"] = v
		st.d["out"] = "due"
	}
	return c.outs(v)
}

func (m *downMod) publish(c *Call, where string) ([]Outcome, bool) {
	st, in := c.st, c.in
	s, ok := sliceOf(c.arg(2))
	if o, ok2 := st.g["out"].(VSlice); ok && ok2 && sameSlice(st, o, s) && st.d["out"] == "due" {
		st.d["out"] = "done"
		delete(st.g, "out")
		m.check(in, "C23", "published", true, where, "")
		return c.okOrErr("publish"), true
	}
	p, ok2 := st.g["part"].(VSlice)
	m.check(in, "C23", "published", ok && ok2 && st.d["part"] == "due" && sameSlice(st, p, s), where, "something other than the next part of a window is published, or a part is published again")
	delete(st.d, "part")
	delete(st.g, "part")
	return c.okOrErr("publish"), true
}

func (m *downMod) Post(c *Call, o *Outcome) {
	if !m.inWorker(c.in) {
		return
	}
	switch c.name {
	case "bytes.Split":
		st := o.st
		d, ok := st.g["cur.data"].(VSlice)
		a, ok1 := sliceOf(c.arg(0))
		r, ok2 := sliceOf(o.ret)
		if ok && ok1 && ok2 && sameSlice(st, d, a) && len(r.R) == 1 && c.isLF(st, 1) {
			st.g["cur.lines"] = r
			st.g["cur.n"] = VInt{linC(0)}
		}
	case "bytes.IndexByte", "bytes.Index", "bytes.IndexRune":
		curPost(c, o)
	}
	if strings.HasPrefix(c.name, "downsampler.new") && strings.HasSuffix(c.name, "Bucket") {
		m.created(c, o)
	}
}

// created is called for every new window.
func (m *downMod) created(c *Call, o *Outcome) {
	st, in := o.st, c.in
	where := in.pos(c.fr, c.instr)
	bs := m.open(st)
	e := m.end(st, o.ret)
	p := m.period(st)
	apart := e != nil
	for _, b := range bs {
		x := m.end(st, b)
		if e == nil || x == nil || !st.num.le(e.add(p).sub(x)) && !st.num.le(x.add(p).sub(e)) {
			apart = false
		}
	}
	m.check(in, "C22", "apart", apart, where, "a window is created which overlaps with another open one")
	m.check(in, "C22", "aligned", e != nil && m.multiple(st, e) != nil, where, "the end of a window is not a multiple of the period")
	if len(bs) < 8 {
		m.setOpen(st, append(bs, o.ret))
	}
}

// line is called when the next line is taken, or there is none left.
func (m *downMod) line(in *Interp, st *State, where string) {
	cur, ok := st.g["cur.line"].(VSlice)
	if ok && !st.num.le(cur.Len) {
		switch st.d["line"] {
		case "new":
			m.refused(st)
			m.check(in, "C22", "accepted", st.d["line"] == "late", where, "a line is dropped although the window its time falls into is open")
			if st.d["line"] == "late" {
				m.check(in, "C22", "reported", st.d["err"] != "", where, "a line is dropped without an error")
			}
		case "late":
			m.check(in, "C22", "accepted", true, where, "")
			m.check(in, "C22", "reported", st.d["err"] != "", where, "a line is dropped without an error")
		}
	}
	for _, k := range []string{"ts", "rest"} {
		delete(st.g, k)
	}
	for _, k := range []string{"line", "untimed", "err"} {
		delete(st.d, k)
	}
}

// refused settles whether a line belongs to no open window.
func (m *downMod) refused(st *State) {
	ts, ok := st.g["ts"].(VInt)
	bs := m.order(st)
	if !ok || bs == nil || st.d["line"] != "new" {
		return
	}
	if st.num.lt(ts.L.sub(m.end(st, bs[0]).sub(m.period(st)))) || st.num.le(m.end(st, bs[2]).sub(ts.L)) {
		st.d["line"] = "late"
		delete(st.g, "ts")
		delete(st.g, "rest")
	}
}

func (m *downMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if !m.inWorker(in) || ptr.Idx == nil {
		return
	}
	old, had := st.g["cur.line"]
	next, ok := curLoad(st, ptr, v)
	where := in.pos(fr, ins)
	if next {
		cur := st.g["cur.line"]
		delete(st.g, "cur.line")
		if had {
			st.g["cur.line"] = old
		}
		m.line(in, st, where)
		st.g["cur.line"] = cur
		m.taken(st)
		return
	}
	if !ok {
		m.check(in, "C22", "lines", ok, where, "the received lines are not looked at one after the other")
	}
}

func (m *downMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if m.inWorker(in) && isByteSlice(t) && m.want["C22"] {
		v := nonNil(symVal(t, freshTerm("received")))
		curStart(st, v.(VSlice))
		return v
	}
	return nil
}

func (m *downMod) Sig(in *Interp, st *State) string {
	m.refused(st)
	if l := st.d["line"]; l == "added" || l == "late" && st.d["err"] != "" {
		if l == "late" {
			m.proved("accepted", "reported")
		}
		st.d["line"] = "ok"
	}
	if st.d["line"] == "ok" || st.d["line"] == "" {
		for _, k := range []string{"untimed", "err"} {
			delete(st.d, k)
		}
		delete(st.g, "ts")
		delete(st.g, "rest")
	}
	if _, busy := st.g["cur.data"]; busy && m.settled(st) && curDone(st) {
		m.proved("all lines")
		delete(st.d, "line")
		curClear(st)
	}
	return curSig(st) + m.names(in, st) + m.which(st)
}

// rename gives the open windows the same names whenever the worker waits.
func (m *downMod) rename(in *Interp, p *Path) {
	bs := m.open(p.st)
	if len(bs) != 3 {
		return
	}
	var now [3]ObjID
	for i, b := range bs {
		id, ok := objOf(b)
		if !ok {
			return
		}
		now[i] = id
	}
	ids, ok := m.ids[in.curRoot]
	if !ok {
		m.ids[in.curRoot] = now
		return
	}
	s := &substMap{lin: map[Var]*Lin{}, obj: map[ObjID]ObjID{}, term: map[*Term]*Term{}}
	for i := range ids {
		s.obj[now[i]] = ids[i]
	}
	// those whose name is taken get one which is free
	var free []ObjID
	used := map[ObjID]bool{}
	for _, id := range ids {
		used[id] = true
	}
	for _, id := range now {
		if !used[id] {
			free = append(free, id)
		}
	}
	for _, id := range ids {
		if _, ok := s.obj[id]; !ok && len(free) > 0 {
			s.obj[id], free = free[0], free[1:]
		}
	}
	p.st = s.state(p.st)
	env := make(map[ssa.Value]Val, len(p.env))
	for k, v := range p.env {
		env[k] = s.v(v)
	}
	p.env = env
}

// names tells which windows are open, compared with when the worker waited.
func (m *downMod) names(in *Interp, st *State) string {
	ids, ok := m.ids[in.curRoot]
	if !ok {
		return ""
	}
	s := ""
	for _, b := range m.open(st) {
		n := "n"
		if id, ok := objOf(b); ok {
			for i, x := range ids {
				if id == x {
					n = strconv.Itoa(i)
				}
			}
		}
		s += n
	}
	return s
}

// proved records what need not be remembered any longer; what fails is found
// when the next line is taken.
func (m *downMod) proved(keys ...string) {
	for _, k := range keys {
		if m.want["C22"] {
			m.c.oblige("C22:"+k, true, "", "")
			m.c.inst("C22 " + k)
		}
	}
}

// which tells the window the time of the current line is known to fall into.
func (m *downMod) which(st *State) string {
	ts, ok := st.g["ts"].(VInt)
	if !ok || st.d["line"] != "new" {
		return ""
	}
	p := m.period(st)
	for i, b := range m.open(st) {
		e := m.end(st, b)
		if e != nil && st.num.lt(ts.L.sub(e)) && st.num.le(e.sub(p).sub(ts.L)) {
			return "w" + strconv.Itoa(i)
		}
	}
	return "w?"
}

// settled reports whether the current line was dealt with.
func (m *downMod) settled(st *State) bool {
	cur, ok := st.g["cur.line"].(VSlice)
	return ok && (st.d["line"] == "ok" || st.num.le(cur.Len))
}

func (m *downMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if !m.inWorker(in) {
		return
	}
	st := p.st
	where := in.pos(fr, ins)
	switch x := ins.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && strings.HasSuffix(x.Type().String(), "error") {
			st.d["err"] = "1"
		}
	case *ssa.Slice:
		m.slice(in, p, x, where)
	case *ssa.Select:
		if x.Blocking {
			m.waits(in, st, where)
			m.rename(in, p)
		}
	}
}

// slice recognises that the next line is cut off the rest of the data.
func (m *downMod) slice(in *Interp, p *Path, x *ssa.Slice, where string) {
	st := p.st
	d, ok := st.g["cur.data"].(VSlice)
	if _, split := st.g["cur.lines"]; !ok || split || x.High == nil {
		return
	}
	s, ok := in.get(p, x.X).(VSlice)
	h, ok2 := in.get(p, x.High).(VInt)
	nl, ok3 := st.g["cur.nl"].(VInt)
	if !ok || !ok2 || !ok3 || len(s.R) != 1 || s.R[0] != d.R[0] || !eqBoth(st, h.L, nl.L) || !curRest(st, s) {
		return
	}
	if x.Low != nil {
		if l, ok := in.get(p, x.Low).(VInt); !ok || !st.num.eq0(l.L) {
			return
		}
	}
	s.Len = h.L
	m.next(in, st, s, where)
}

// waits is called when the worker waits for data or for time to pass.
func (m *downMod) waits(in *Interp, st *State, where string) {
	if _, busy := st.g["cur.data"]; busy {
		m.line(in, st, where)
		m.check(in, "C22", "all lines", curDone(st), where, "not all received lines are looked at")
	}
	curClear(st)
	bs := m.order(st)
	m.check(in, "C22", "three windows", bs != nil, where, "the open windows are not three which follow each other")
	if bs != nil {
		m.setOpen(st, bs)
		second := m.end(st, bs[1])
		if s, ok := st.g["start"].(VInt); ok {
			m.check(in, "C22", "around now", st.num.lt(s.L.sub(second)) && st.num.le(second.sub(m.period(st)).sub(s.L)), where, "the second of the first three windows is not the current one")
		}
		if st.d["started"] != "" {
			m.check(in, "C22", "looked", st.d["looked"] != "" || m.current(st), where, "it is not found out whether a window has ended")
		}
		now, ok := st.g["now"].(VInt)
		w, ok2 := st.g["wait"].(VInt)
		m.check(in, "C22", "timer", ok && ok2 && (st.num.le(w.L) || st.num.le(w.L.sub(second.sub(now.L)))), where, "the worker waits longer than until the current window ends")
		st.g["al"] = VInt{second}
	}
	if m.want["C23"] {
		o, due := st.g["out"].(VSlice)
		empty := due && st.num.le(o.Len)
		switch st.d["out"] {
		case "":
		case "done":
			m.check(in, "C23", "all parts", st.d["part"] == "", where, "a part of a window is not published")
		default:
			m.check(in, "C23", "all parts", empty, where, "a window is not published completely before more data is received")
		}
	}
	for _, k := range []string{"start", "wait", "now", "ts", "rest", "out", "part"} {
		delete(st.g, k)
	}
	for _, k := range []string{"looked", "out", "part", "line", "untimed", "err"} {
		delete(st.d, k)
	}
	st.d["started"] = "1"
}

func runDown(c *Ctx, props ...string) {
	m := &downMod{c: c, want: map[string]bool{}, ids: map[*Root][3]ObjID{}}
	for _, p := range props {
		m.want[p] = true
	}
	in := newInterp(c.pr, m)
	in.onConfig = func(p VPtr) { m.cfg = p }
	apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
	useContracts(in)
	hide := in.opaque
	in.opaque = func(k *Call) bool {
		// lines and messages are followed one at a time
		if m.want["C22"] {
			return hide(k) || strings.HasPrefix(k.name, "batchsplitter.") || strings.HasPrefix(k.name, "(*batchsplitter.")
		}
		return hide(k) || k.name == "(*downsampler.assigner).Update"
	}
	for _, cp := range componentList {
		if cp.mode == "downsampler" {
			runComponent(c, in, cp, func(r *Root, st *State) *State {
				st.d, st.g = map[string]string{}, map[string]Val{}
				// times in nanoseconds do not overflow
				n := st.num.assumeLe(m.period(st).addC(-1 << 61))
				if n == nil {
					return nil
				}
				st.num = n
				return st
			})
		}
	}
	c.absorb(in)
	// the end of a window never changes
	for _, f := range c.pr.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeName(s.Val.Type()) != "time.Time" || !strings.HasSuffix(a.X.Type().String(), "ucket") {
					continue
				}
				_, fresh := a.X.(*ssa.Alloc)
				if m.want["C22"] {
					c.oblige("C22:fixed:"+c.pr.fname(f), fresh, c.pr.posString(i.Pos()), "the end of a window is changed")
				}
			}
		}
	}
}

func init() {
	reg := func(id, rule string, need map[string]int) {
		register(&Property{id: id, level: "other", rule: "abstract interpretation of the downsampler's workers: " + rule, run: func(c *Ctx) {
			runDown(c, id)
			for k, n := range need {
				c.need(id+" "+k, n)
			}
		}})
	}
	reg("C22", "the window every line is added to, the windows which are open, and when a window is closed", map[string]int{"window": 1, "open": 1, "whole": 1, "accepted": 1, "reported": 1, "all lines": 1, "three windows": 1, "around now": 1, "timer": 1, "looked": 1, "ended": 1, "oldest": 1, "aligned": 1, "apart": 1})
	reg("C23", "what is published of a closed window", map[string]int{"published": 1, "each part": 1, "all parts": 1})
}
