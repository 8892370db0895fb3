package main

import "golang.org/x/tools/go/ssa"

// C08: whole numbers are read exactly or rejected.
//
// Ghosts: "V" is the value of the digits looked at so far, "pos" how many bytes
// were, "b0" the first byte, which may be looked at before it is read as a
// digit ("peek").

type numMod struct {
	BaseModule
	c    *Ctx
	data VSlice
	ts   bool // looking at the timestamps of lines
}

func (m *numMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

func isDigit(st *State, v *Lin) bool {
	return st.num.le(linC('0').sub(v)) && st.num.le(v.addC(-'9'))
}

func noDigit(st *State, v *Lin) bool {
	return st.num.lt(v.addC(-'0')) || st.num.lt(linC('9').sub(v))
}

func (m *numMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if m.ts || ptr.Idx == nil || len(m.data.R) != 1 || ptr.Obj != m.data.R[0] {
		return
	}
	b, ok := v.(VInt)
	if !ok {
		return
	}
	where := in.pos(fr, ins)
	pos := st.g["pos"].(VInt).L
	i := ptr.Idx.sub(m.data.Off)
	first := st.num.eq0(i)
	switch {
	case first && st.num.eq0(pos):
		st.g["pos"] = vint(1)
		st.g["b0"] = b
		st.d["peek"] = "1"
	case first && st.d["peek"] == "1":
		st.g["V"] = VInt{b.L.addC(-'0')}
		st.g["last"] = b
		delete(st.d, "peek")
	case eqBoth(st, i, pos):
		x := st.g["V"].(VInt).L
		m.last(in, st, where)
		if st.d["peek"] == "1" {
			b0 := st.g["b0"].(VInt).L
			switch {
			case st.num.eq0(b0.addC(-'-')):
				x = linC(0)
			case isDigit(st, b0):
				x = b0.addC(-'0')
			default:
				m.check(in, "digits", false, where, "reading goes on although it is not known whether the first byte is a digit or a sign")
			}
			delete(st.d, "peek")
		}
		w := x.scale(10)
		if w != nil {
			w = w.add(b.L).addC(-'0')
		}
		if w == nil {
			panic(undecided{"the value of the digits"})
		}
		st.g["V"] = VInt{w}
		st.g["pos"] = VInt{pos.addC(1)}
		st.g["last"] = b
	case eqBoth(st, i, pos.addC(-1)):
	default:
		m.check(in, "order", false, where, "the digits are not looked at one after the other")
	}
}

// last checks the digit looked at before.
func (m *numMod) last(in *Interp, st *State, where string) {
	if b, ok := st.g["last"].(VInt); ok {
		m.check(in, "digits", isDigit(st, b.L), where, "something other than a digit is read as one")
	}
	delete(st.g, "last")
}

// Pre watches what timestamps are read from.
func (m *numMod) Pre(c *Call) ([]Outcome, bool) {
	if !m.ts || c.name != "convert.ToInt" {
		return nil, false
	}
	st, in := c.st, c.in
	where := in.pos(c.fr, c.instr)
	s, ok := sliceOf(c.arg(0))
	ok = ok && len(s.R) == 1 && s.R[0] == m.data.R[0]
	m.check(in, "timestamp part", ok, where, "something other than a part of the line is read as its timestamp")
	if !ok {
		return nil, false
	}
	end := m.data.Off.add(m.data.Len).sub(s.Off.add(s.Len))
	nl := st.num.eq0(end) || st.num.eq0(end.addC(-1)) && m.is(st, s.Off.add(s.Len), '\n')
	m.check(in, "timestamp to end", nl, where, "the timestamp read does not end where the line does")
	m.check(in, "timestamp after space", m.is(st, s.Off.addC(-1), ' '), where, "what is read as a timestamp does not follow a space")
	v := symVal(c.resType(0), freshTerm("number"))
	bad := st.clone()
	bad.d["bad"] = "1"
	st.g["number"] = v
	st.g["off"] = VInt{s.Off.sub(m.data.Off)}
	return []Outcome{{st, VTuple{[]Val{v, VNil{}}}}, {bad, VTuple{[]Val{vint(0), errVal(bad, "number.err")}}}}, true
}

// is tells whether a byte of the line is known.
func (m *numMod) is(st *State, at *Lin, b int64) bool {
	for _, c := range st.obj(m.data.R[0]).cells {
		if eqBoth(st, c.idx, at) {
			if v, ok := c.v.(VInt); ok && st.num.eq0(v.L.addC(-b)) {
				return true
			}
		}
	}
	return false
}

// timestamp checks what is returned for a line.
func (m *numMod) timestamp(in *Interp, o Outcome, where string) {
	st := o.st
	ts, ok := retN(o.ret, 0).(VInt)
	off, ok2 := retN(o.ret, 1).(VInt)
	n, ok3 := st.g["number"].(VInt)
	if ok3 {
		m.check(in, "timestamp", ok && ok2 && eqBoth(st, ts.L, n.L) && eqBoth(st, off.L, st.g["off"].(VInt).L), where, "the timestamp or its position is not what was read")
		return
	}
	m.check(in, "no timestamp", ok && ok2 && eqBoth(st, off.L, linC(-1)), where, "a timestamp is returned which was not read")
}

func (m *numMod) Sig(in *Interp, st *State) string {
	if m.ts {
		s := ""
		if _, ok := st.g["number"]; ok {
			s = "read"
		}
		if m.is(st, m.data.Off.add(m.data.Len).addC(-1), '\n') {
			s += "nl"
		}
		return s
	}
	if b, ok := st.g["last"].(VInt); ok && isDigit(st, b.L) {
		m.c.oblige("digits", true, "", "")
		m.c.inst("digits")
		delete(st.g, "last")
	}
	s := ""
	if b, ok := st.g["b0"].(VInt); ok {
		switch {
		case st.num.eq0(b.L.addC(-'-')):
			s = "-"
		case st.num.lt(b.L.addC(-'-')), st.num.lt(linC('-').sub(b.L)):
			s = "+"
		}
	}
	if b, ok := st.g["last"].(VInt); ok {
		switch {
		case st.num.lt(b.L.addC(-'0')):
			s += "<"
		case st.num.lt(linC('9').sub(b.L)):
			s += ">"
		}
	}
	return s
}

func (m *numMod) result(in *Interp, o Outcome, where string) {
	st := o.st
	pos := st.g["pos"].(VInt).L
	v := st.g["V"].(VInt).L
	neg, unsigned := false, true
	if b, ok := st.g["b0"].(VInt); ok {
		neg = st.num.eq0(b.L.addC(-'-'))
		unsigned = st.num.lt(b.L.addC(-'-')) || st.num.lt(linC('-').sub(b.L))
		if st.d["peek"] == "1" && !neg {
			v = b.L.addC(-'0')
		}
	}
	if mustNil(st, retN(o.ret, 1)) {
		m.last(in, st, where)
		n, ok := retN(o.ret, 0).(VInt)
		m.check(in, "all read", eqBoth(st, pos, m.data.Len) && st.num.lt(linC(0).sub(m.data.Len)) && !(neg && st.num.le(pos.addC(-1))), where, "a number is accepted before all of it was looked at")
		if neg {
			v = v.neg()
		}
		m.check(in, "exact", ok && (neg || unsigned) && eqBoth(st, n.L, v), where, "the value is not that of the digits")
		return
	}
	bad := st.num.le(m.data.Len) // empty
	if neg && st.num.le(m.data.Len.addC(-1)) {
		bad = true // only a sign
	}
	if b, ok := st.g["last"].(VInt); ok && noDigit(st, b.L) {
		bad = true
	}
	if b, ok := st.g["b0"].(VInt); ok && st.d["peek"] == "1" && unsigned && noDigit(st, b.L) {
		bad = true
	}
	most := linB(u128(1<<63 - 1))
	if neg {
		most = linB(u128(1 << 63))
	}
	if d := most.sub(v); d != nil && st.num.lt(d) {
		bad = true // too large
	}
	m.check(in, "rejected", bad, where, "a number which fits is rejected")
}

func init() {
	register(&Property{id: "C08", level: "other", rule: "abstract interpretation of convert.ToInt with exact machine integers: the result equals the value of all digits, or there is an error", run: func(c *Ctx) {
		m := &numMod{c: c}
		in := newInterp(c.pr, m)
		in.wraps = true
		in.exact = true
		f := c.pr.fn("convert.ToInt")
		where := c.pr.posString(f.Pos())
		st := in.globalsState()
		args := in.symArgs(f)
		m.data = args[0].(VSlice)
		st.g["pos"], st.g["V"] = vint(0), vint(0)
		for _, o := range in.runEntry(f, args, nil, st) {
			m.result(in, o, where)
		}
		c.absorb(in)
		for _, name := range []string{"influx.ExtractTimestamp", "influx.ExtractNanos"} {
			m.ts = true
			in = newInterp(c.pr, m)
			f := c.pr.fn(name)
			args := in.symArgs(f)
			m.data = args[0].(VSlice)
			for _, o := range in.runEntry(f, args, nil, in.globalsState()) {
				m.timestamp(in, o, c.pr.posString(f.Pos()))
			}
			c.absorb(in)
		}
		for _, k := range []string{"all read", "exact", "rejected", "digits", "timestamp", "no timestamp", "timestamp to end", "timestamp after space"} {
			c.need(k, 1)
		}
	}})
}
