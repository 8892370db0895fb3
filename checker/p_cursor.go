package main

import "golang.org/x/tools/go/ssa"

// cursor follows how a function works through received data line by line:
// either over the result of bytes.SplitAfter, or over consecutive parts of
// the data. It lives in the ghost state.

func sameSlice(st *State, a, b VSlice) bool {
	return len(a.R) == 1 && len(b.R) == 1 && a.R[0] == b.R[0] && eqBoth(st, a.Off, b.Off) && eqBoth(st, a.Len, b.Len)
}

func curStart(st *State, data VSlice) {
	curClear(st)
	st.g["cur.data"] = data
	st.g["cur.pos"] = VInt{data.Off}
}

func curClear(st *State) {
	for _, k := range []string{"cur.data", "cur.pos", "cur.lines", "cur.n", "cur.line", "cur.nl"} {
		delete(st.g, k)
	}
}

// curPost follows calls which look for the ends of lines.
func curPost(c *Call, o *Outcome) {
	st := o.st
	d, ok := st.g["cur.data"].(VSlice)
	if !ok {
		return
	}
	switch c.name {
	case "bytes.SplitAfter":
		a, ok := sliceOf(c.arg(0))
		r, ok2 := sliceOf(o.ret)
		if ok && ok2 && sameSlice(st, d, a) && len(r.R) == 1 && c.isLF(st, 1) {
			st.g["cur.lines"] = r
			st.g["cur.n"] = VInt{linC(0)}
		}
	case "bytes.IndexByte", "bytes.Index", "bytes.IndexRune":
		a, ok := sliceOf(c.arg(0))
		n, ok2 := o.ret.(VInt)
		if ok && ok2 && curRest(st, a) && c.isLF(st, 1) {
			st.g["cur.nl"] = n
		}
	}
}

// isLF tells whether an argument is a line feed, or a string of one.
func (c *Call) isLF(st *State, i int) bool {
	switch x := c.arg(i).(type) {
	case VInt:
		return st.num.eq0(x.L.addC(-10))
	case VSlice:
		return len(x.R) == 1 && st.num.eq0(x.Len.addC(-1)) && (&linesMod{}).isNL(c.in, st, x.R[0], x.Off)
	}
	return false
}

// curRest reports whether s is all that follows the current line.
func curRest(st *State, s VSlice) bool {
	d := st.g["cur.data"].(VSlice)
	pos, ok := st.g["cur.pos"].(VInt)
	return ok && len(s.R) == 1 && s.R[0] == d.R[0] && eqBoth(st, s.Off, pos.L) && eqBoth(st, s.Off.add(s.Len), d.Off.add(d.Len))
}

// curLine tells whether a line of length n is next.
func curLine(st *State, n *Lin) bool {
	d := st.g["cur.data"].(VSlice)
	pos := st.g["cur.pos"].(VInt).L
	nl, ok := st.g["cur.nl"].(VInt)
	if !ok {
		return false
	}
	return eqBoth(st, n, nl.L.addC(1)) && st.num.le(nl.L.neg()) || st.num.lt(nl.L) && eqBoth(st, pos.add(n), d.Off.add(d.Len))
}

// curSig keeps apart whether there is another line end.
func curSig(st *State) string {
	nl, ok := st.g["cur.nl"].(VInt)
	switch {
	case !ok:
		return ""
	case st.num.le(nl.L.neg()):
		return "nl"
	case st.num.lt(nl.L):
		return "end"
	}
	return "?"
}

// curLoad is called for every element loaded. It reports whether this is the
// next line, and whether lines are taken in order.
func curLoad(st *State, ptr VPtr, v Val) (next, ok bool) {
	ls, isL := st.g["cur.lines"].(VSlice)
	if !isL || ptr.Idx == nil || ptr.Obj != ls.R[0] || len(ptr.Path) > 0 {
		return false, true
	}
	n := st.g["cur.n"].(VInt).L
	if eqBoth(st, ptr.Idx, n) {
		st.g["cur.n"] = VInt{n.addC(1)}
		if s, ok := v.(VSlice); ok {
			st.g["cur.line"] = s
		}
		return true, true
	}
	return false, eqBoth(st, ptr.Idx, n.addC(-1))
}

// curIs reports whether s is the current line, or the next part of the data.
func curIs(st *State, s VSlice) bool {
	if l, ok := st.g["cur.line"].(VSlice); ok && sameSlice(st, l, s) {
		return true
	}
	return false
}

// curNext makes s the current line if it directly follows the part before.
func curNext(st *State, s VSlice) bool {
	d, ok := st.g["cur.data"].(VSlice)
	if !ok || len(s.R) != 1 || s.R[0] != d.R[0] {
		return false
	}
	pos := st.g["cur.pos"].(VInt).L
	if !eqBoth(st, s.Off, pos) || !curLine(st, s.Len) {
		return false
	}
	delete(st.g, "cur.nl")
	st.g["cur.pos"] = VInt{s.Off.add(s.Len)}
	st.g["cur.line"] = s
	return true
}

// curDone reports whether all of the data has been looked at.
func curDone(st *State) bool {
	d, ok := st.g["cur.data"].(VSlice)
	if !ok {
		return true
	}
	if ls, ok := st.g["cur.lines"].(VSlice); ok && eqBoth(st, ls.Len, st.g["cur.n"].(VInt).L) {
		return true
	}
	return eqBoth(st, d.Off.add(d.Len), st.g["cur.pos"].(VInt).L)
}

// curSlice recognises that the next line is cut off the rest of the data.
func curSlice(in *Interp, p *Path, x *ssa.Slice) (VSlice, bool) {
	st := p.st
	d, ok := st.g["cur.data"].(VSlice)
	if _, split := st.g["cur.lines"]; !ok || split || x.High == nil {
		return VSlice{}, false
	}
	s, ok := in.get(p, x.X).(VSlice)
	if !ok || len(s.R) != 1 || s.R[0] != d.R[0] {
		return VSlice{}, false
	}
	if !curRest(st, s) {
		return VSlice{}, false
	}
	if x.Low != nil {
		if l, ok := in.get(p, x.Low).(VInt); !ok || !st.num.eq0(l.L) {
			return VSlice{}, false
		}
	}
	h, ok := in.get(p, x.High).(VInt)
	if !ok || !st.num.lt(h.L.neg()) {
		return VSlice{}, false
	}
	s.Len = h.L
	return s, true
}
