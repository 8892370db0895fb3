package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: data of separate inputs never shares a line of a listener's batch.
//
// Whenever data is added to the batch it is either empty, or known to end
// with a newline, or ends with earlier data of the same body. The ghost "nl"
// is a length of the batch up to which it is known to end with a newline and
// "src" the length at which the data of the reader st.d["src"] ended.

type linesMod struct {
	BaseModule
	c    *Ctx
	mode string
	inv  bool // the batch is known to be empty or terminated whenever the lock is free
}

// theBatch finds the listener's batch, made when it started, and what it
// holds. A part may use others of its own.
func theBatch(st *State) (ObjID, VSlice, bool) {
	var found ObjID
	has, split := false, false
	var b VSlice
	for id, o := range st.heap {
		if o.kind == oCell && typeName(o.typ) == "batch.Batch" && (!has || id < found) {
			s, ok := heldBytes(o)
			found, b, has = id, s, true
			split = !ok || len(s.R) != 1
		}
	}
	if split {
		panic(undecided{"the memory of the batch is not known"})
	}
	return found, b, has
}

func (m *linesMod) isNL(in *Interp, st *State, r ObjID, idx *Lin) bool {
	if !st.hasObj(r) {
		return false
	}
	for _, c := range st.obj(r).cells {
		if d := c.idx.sub(idx); d != nil && (eqLin(c.idx, idx) || st.num.eq0(d)) {
			if v, ok := c.v.(VInt); ok && st.num.eq0(v.L.addC(-10)) {
				return true
			}
		}
	}
	return false
}

func isEmpty(st *State, b VSlice) bool { return st.num.le(b.Len) }

// ended tells whether the batch is empty or ends with a newline at a length.
func (m *linesMod) ended(in *Interp, st *State, b VSlice, n *Lin) bool {
	if st.num.le(n) {
		return true
	}
	if g, ok := st.g["nl"].(VInt); ok && eqBoth(st, g.L, n) {
		return true
	}
	return m.isNL(in, st, b.R[0], b.Off.add(n).addC(-1))
}

func (m *linesMod) Sig(in *Interp, st *State) string {
	_, b, ok := theBatch(st)
	if !ok {
		return "?"
	}
	if isEmpty(st, b) {
		return "e"
	}
	if m.ended(in, st, b, b.Len) {
		st.g["nl"] = VInt{b.Len}
		return "n"
	}
	if g, ok := st.g["src"].(VInt); ok && eqBoth(st, g.L, b.Len) {
		return "s"
	}
	return "u"
}

func sameReader(v Val) string {
	i, ok := v.(VIface)
	if !ok {
		return ""
	}
	if i.Dyn != nil && strings.Contains(i.Dyn.String(), "net.UDPConn") {
		return "" // every read gives another packet
	}
	if i.T != nil {
		return i.T.String()
	}
	return ""
}

func (m *linesMod) added(in *Interp, fr *Frame, st *State, lo *Lin, b VSlice, reader string, instr ssa.Instruction) {
	rel := lo.sub(b.Off)
	ok := m.ended(in, st, b, rel)
	if !ok && reader != "" && st.d["src"] == reader {
		if g, has := st.g["src"].(VInt); has && eqBoth(st, g.L, rel) {
			ok = true
		}
	}
	in.oblige("own line:"+m.mode+":"+in.pr.fname(topFn(fr)), ok, in.pos(fr, instr), "data is added to a batch which may not end with a newline")
	if in.rec {
		m.c.inst("data added " + m.mode)
	}
}

func topFn(fr *Frame) *ssa.Function {
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr.fn
}

func (m *linesMod) Bulk(in *Interp, fr *Frame, st *State, dst ObjID, lo, n *Lin, src *VSlice, instr ssa.Instruction) {
	_, b, ok := theBatch(st)
	if !ok || b.R[0] != dst {
		return
	}
	if st.num.le(n) {
		return
	}
	reader := ""
	if src != nil {
		if len(src.R) == 1 && eqBoth(st, n, linC(1)) && m.isNL(in, st, src.R[0], src.Off) {
			return // a newline
		}
	} else if c, ok := instr.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
		reader = st.d["reading"]
	}
	m.added(in, fr, st, lo, b, reader, instr)
	rel := lo.sub(b.Off)
	if g, ok := st.g["nl"].(VInt); ok && !st.num.le(g.L.sub(rel)) {
		delete(st.g, "nl")
	}
	delete(st.g, "src")
	delete(st.d, "src")
}

func (m *linesMod) Store(in *Interp, fr *Frame, st *State, ptr VPtr, old, new Val, instr ssa.Instruction) {
	_, b, ok := theBatch(st)
	if !ok || ptr.Obj != b.R[0] || ptr.Idx == nil {
		return
	}
	if v, ok := new.(VInt); ok && st.num.eq0(v.L.addC(-10)) {
		return
	}
	m.added(in, fr, st, ptr.Idx, b, "", instr)
	delete(st.g, "nl")
	delete(st.g, "src")
}

func isRead(name string) bool { return strings.HasSuffix(name, ").Read") }

func (m *linesMod) Pre(c *Call) ([]Outcome, bool) {
	if isRead(c.name) {
		delete(c.st.d, "reading")
		if r := sameReader(c.arg(0)); r != "" {
			c.st.d["reading"] = r
		}
	}
	if strings.HasSuffix(c.name, "Mutex).Unlock") && m.inv {
		if _, b, ok := theBatch(c.st); ok {
			c.in.oblige("own line:"+m.mode+":unlock", m.ended(c.in, c.st, b, b.Len), c.in.pos(c.fr, c.instr), "the batch may not end with a newline when the lock is released")
		}
	}
	return nil, false
}

func (m *linesMod) Post(c *Call, o *Outcome) {
	st := o.st
	switch {
	case strings.HasSuffix(c.name, "Mutex).Lock"):
		delete(st.g, "nl")
		delete(st.g, "src")
		delete(st.d, "src")
		if _, b, ok := theBatch(st); ok && m.inv {
			st.g["nl"] = VInt{b.Len}
		}
		return
	case isRead(c.name):
		r := st.d["reading"]
		delete(st.d, "reading")
		_, b, ok := theBatch(st)
		s := c.slice(1)
		if n, ok2 := retN(o.ret, 0).(VInt); r != "" && ok && ok2 && len(s.R) == 1 && s.R[0] == b.R[0] {
			st.d["src"] = r
			st.g["src"] = VInt{s.Off.sub(b.Off).add(n.L)}
		}
		return
	}
	if strings.Contains(c.name, "batch.") {
		if _, b, ok := theBatch(st); ok && m.ended(c.in, st, b, b.Len) {
			st.g["nl"] = VInt{b.Len}
		}
	}
}

func init() {
	register(&Property{id: "C01", level: "other", rule: "abstract interpretation of the listeners: data is only added to a batch which is empty, ends with a newline or ends with the same body's data", run: func(c *Ctx) {
		run := func(c *Ctx, mode string, inv bool) {
			runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
				if cp.mode != mode {
					return nil, nil
				}
				in := newInterp(c.pr, &linesMod{c: c, mode: mode, inv: inv})
				apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
				useContracts(in)
				return in, nil
			})
		}
		for _, mode := range []string{"listener", "listener_http"} {
			// either every addition looks at the end of the batch itself, or
			// the batch is left terminated whenever the lock is released
			a := newCtx(c.pr, c.prop, c.tier)
			run(a, mode, false)
			if len(a.viol) > 0 {
				b := newCtx(c.pr, c.prop, c.tier)
				run(b, mode, true)
				if len(b.viol) == 0 {
					a = b
				}
			}
			c.take(a)
			c.need("data added "+mode, 1)
		}
	}})
}
