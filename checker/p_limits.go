package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: the count, age and size limits force a batch to be sent.
//
// At every point where a listener or writer waits for more data its batch is
// empty or below all three limits, judged by the values of Writes and Age
// obtained since the data was added. Waiting is bounded so that the age is
// looked at again in time.

type limitsMod struct {
	BaseModule
	c     *Ctx
	mode  string
	cfg   VPtr
	waits map[*Root][]waitPoint
	age   map[*Root]bool
}

type waitPoint struct {
	key   string
	ok    bool
	where string
	msg   string
}

func (m *limitsMod) below(in *Interp, st *State) bool {
	_, b, ok := theBatch(st)
	if !ok {
		return true // not the part which owns the batch
	}
	if isEmpty(st, b) || st.d["below"] != "" {
		return true
	}
	c := &Call{in: in, st: st}
	w, ok1 := st.g["writes"].(VInt)
	a, ok2 := st.g["age"].(VInt)
	if !ok1 || !ok2 {
		return false
	}
	maxW, maxS := cfgLin(c, m.cfg, "BatchMaxCount"), cfgLin(c, m.cfg, "BatchMaxSize")
	maxA := m.maxAge(st)
	if dbgL {
		println("BELOW", maxW.String(), maxS.String(), maxA.String(), w.L.String(), a.L.String(), st.num.lt(w.L.sub(maxW)), st.num.lt(b.Len.sub(maxS)), st.num.lt(a.L.sub(maxA)))
	}
	return maxW != nil && maxS != nil && maxA != nil && st.num.lt(w.L.sub(maxW)) && st.num.lt(b.Len.sub(maxS)) && st.num.lt(a.L.sub(maxA))
}

// young reports whether the batch is empty or below its maximum age.
func (m *limitsMod) young(st *State) bool {
	_, b, ok := theBatch(st)
	if !ok || isEmpty(st, b) {
		return true
	}
	a, ok := st.g["lastage"].(VInt)
	x := m.maxAge(st)
	return ok && x != nil && st.num.lt(a.L.sub(x))
}

func (m *limitsMod) maxAge(st *State) *Lin {
	if !st.hasObj(m.cfg.Obj) {
		return nil
	}
	o := st.obj(m.cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	if x, ok := getPath(v, []int{fieldIdx(o.typ, "BatchMaxAge"), 0}).(VInt); ok {
		return x.L
	}
	return nil
}

func (m *limitsMod) Sig(in *Interp, st *State) string {
	_, b, ok := theBatch(st)
	if !ok {
		return "?"
	}
	if isEmpty(st, b) {
		return "e"
	}
	m.settle(st)
	m.note(in, st)
	if m.below(in, st) {
		return "k"
	}
	return "u"
}

// note remembers that the batch was found below its limits.
func (m *limitsMod) note(in *Interp, st *State) bool {
	if st.d["below"] != "" {
		return true
	}
	if st.g["age"] == nil || st.g["writes"] == nil {
		return false
	}
	if _, b, ok := theBatch(st); !ok || isEmpty(st, b) || !m.below(in, st) {
		return false
	}
	st.d["below"] = "1"
	delete(st.g, "age")
	delete(st.g, "writes")
	return true
}

func (m *limitsMod) Bulk(in *Interp, fr *Frame, st *State, dst ObjID, lo, n *Lin, src *VSlice, instr ssa.Instruction) {
	if _, b, ok := theBatch(st); ok && b.R[0] == dst && !st.num.le(n.addC(-1)) {
		m.forget(st)
		m.settle(st)
		if st.d["reading"] == "" {
			st.g["added"] = VInt{n}
		}
	}
}

// numField gives the value of an integer field of the batch.
func batchInt(st *State, id ObjID) (*Lin, bool) {
	o := st.obj(id)
	str, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	for i := 0; i < str.NumFields(); i++ {
		if b, ok := str.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if x, ok := getPath(v, []int{i}).(VInt); ok {
				return x.L, true
			}
		}
	}
	return nil, false
}

// Store follows the number of writes and the time of the first one.
func (m *limitsMod) Store(in *Interp, fr *Frame, st *State, ptr VPtr, old, new Val, instr ssa.Instruction) {
	id, b, ok := theBatch(st)
	if !ok || ptr.Obj != id || len(ptr.Path) == 0 {
		return
	}
	t := st.obj(id).typ.Underlying().(*types.Struct).Field(ptr.Path[0]).Type()
	if isTime(t) {
		w, ok := batchInt(st, id)
		if !isEmpty(st, b) && (!ok || !st.num.le(w)) {
			st.d["restarted"] = "1"
		}
		return
	}
	x, ok1 := old.(VInt)
	y, ok2 := new.(VInt)
	if ok1 && ok2 && st.num.lt(x.L.sub(y.L)) {
		st.d["counted"] = "1"
	}
}

// leave checks, when a method of the batch returns to the rest of the
// program, that what it added was counted and the age not restarted.
func (m *limitsMod) leave(c *Call, st *State) {
	fn := c.fn
	if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "batch" || c.fr == nil || c.fr.fn.Pkg == nil || c.fr.fn.Pkg == fn.Pkg {
		return
	}
	_, b, ok := theBatch(st)
	if !ok {
		return
	}
	m.settle(st)
	if dbgL && c.in.rec {
		println("LEAVE", c.name, st.d["fresh"], st.d["counted"], valString(b))
		println(st.num.String())
	}
	if c.in.rec && m.batchRoot(c.in) {
		key := ":" + m.mode + ":" + c.name
		if st.d["fresh"] != "" {
			c.in.oblige("counted"+key, st.d["counted"] != "" || isEmpty(st, b), c.in.pos(c.fr, c.instr), "data is added to the batch without counting as a write, so neither the count nor the age limit sees it")
			m.c.inst("additions " + m.mode)
		}
		c.in.oblige("age from first write"+key, st.d["restarted"] == "" || isEmpty(st, b), c.in.pos(c.fr, c.instr), "the age of a batch which holds data starts again")
	}
	delete(st.d, "fresh")
	delete(st.d, "counted")
	delete(st.d, "restarted")
}

func (m *limitsMod) batchRoot(in *Interp) bool {
	return in.curRoot != nil && (m.mode != "writer" || m.age[in.curRoot])
}

func (m *limitsMod) wait(in *Interp, fr *Frame, st *State, ins ssa.Instruction, what string, timed bool) {
	if dbgL {
		_, b, ok := theBatch(st)
		println("WAIT", st.d["dirty"], m.mode, what, in.rec, in.pos(fr, ins), ok, valString(b), valString(st.g["age"]), valString(st.g["writes"]), st.d["timer"], st.d["fired"], m.below(in, st))
		println(st.num.String())
	}
	m.settle(st)
	need := m.mode != "listener_http" || st.d["dirty"] != "" || st.d["fired"] != ""
	if in.rec && in.curRoot != nil {
		add := func(key string, ok bool, msg string) {
			m.waits[in.curRoot] = append(m.waits[in.curRoot], waitPoint{key + ":" + m.mode + ":" + in.pr.fname(topFn(fr)), ok, in.pos(fr, ins), msg})
		}
		if need {
			add("below limits:"+what, m.below(in, st), "a batch which reached its count, age or size limit may be kept while waiting")
		}
		if what == "wait" {
			add("timed", timed, "waiting may go on after the batch reached its maximum age")
		}
	}
	if what == "wait" {
		m.forget(st)
	}
	delete(st.d, "fired")
	delete(st.d, "dirty")
}

// settle decides whether more than a line terminator was added last.
func (m *limitsMod) settle(st *State) {
	if n, ok := st.g["added"].(VInt); ok {
		delete(st.g, "added")
		if !st.num.le(n.L.addC(-1)) {
			st.d["dirty"] = "1"
			st.d["fresh"] = "1"
		}
	}
}

func (m *limitsMod) forget(st *State) {
	delete(st.g, "age")
	delete(st.g, "writes")
	delete(st.d, "below")
}

const second = 1000000000

func (m *limitsMod) Pre(c *Call) ([]Outcome, bool) {
	st := c.st
	m.note(c.in, st)
	if isRead(c.name) {
		m.settle(st)
		st.d["reading"] = "1"
	}
	switch {
	case c.name == "time.After" || c.name == "time.NewTimer" || c.name == "time.NewTicker" || c.name == "time.Tick":
		l := c.lin(0)
		if dbgL {
			println("AFTER", l.String(), valString(st.g["lastage"]), m.maxAge(st).String())
		}
		ok := st.num.le(l.addC(-second))
		if !ok && m.mode == "listener_http" {
			if a, has := st.g["lastage"].(VInt); has {
				if x := m.maxAge(st); x != nil {
					ok = st.num.le(l.add(a.L).sub(x))
				}
			}
		}
		if ok {
			if strings.Contains(c.name, "Tick") {
				st.d["tick"] = "1"
			} else {
				st.d["timer"] = "1"
			}
		}
	case strings.HasSuffix(c.name, ").SetReadDeadline") || strings.HasSuffix(c.name, ").SetDeadline"):
		if n, ok := st.g["now"].(VInt); ok {
			if st.num.le(c.lin(1).sub(n.L).addC(-second)) {
				st.d["timer"] = "1"
			}
		}
	case isRead(c.name) && m.mode == "listener" && c.fr != nil && c.in.pr.inRepo(c.fr.fn):
		m.wait(c.in, c.fr, st, c.instr, "wait", st.d["timer"] != "" || st.d["tick"] != "")
		delete(st.d, "timer")
	case strings.HasSuffix(c.name, "Mutex).Unlock") && st.d["fired"] != "":
		if c.in.rec && c.in.curRoot != nil {
			m.waits[c.in.curRoot] = append(m.waits[c.in.curRoot], waitPoint{"sent in time:" + m.mode + ":" + c.in.pr.fname(topFn(c.fr)), m.young(st), c.in.pos(c.fr, c.instr), "a batch which reached its maximum age is not sent when the timer fires"})
		}
		delete(st.d, "fired")
	}
	return nil, false
}

func (m *limitsMod) Post(c *Call, o *Outcome) {
	st := o.st
	m.leave(c, st)
	if isRead(c.name) {
		delete(st.d, "reading")
		_, b, ok := theBatch(st)
		s := c.slice(1)
		if n, ok2 := retN(o.ret, 0).(VInt); ok && ok2 && len(s.R) == 1 && s.R[0] == b.R[0] {
			st.g["added"] = n
		}
	}
	if os, ok := o.ret.(VInt); ok {
		switch c.name {
		case "(*batch.Batch).Age":
			st.g["age"] = os
			// the clock which measures ages never goes backwards
			for _, l := range []*Lin{os.L.neg(), os.L.addC(-(1 << 62))} {
				if n := st.num.assumeLe(l); n != nil {
					st.num = n
				}
			}
			st.g["lastage"] = os
			if c.in.rec && c.in.curRoot != nil {
				m.age[c.in.curRoot] = true
			}
		case "(*batch.Batch).Writes":
			st.g["writes"] = os
		case "time.Now":
			st.g["now"] = os
		}
	}
	if strings.HasSuffix(c.name, "Mutex).Lock") {
		m.forget(st)
		delete(st.g, "lastage")
	}
}

func (m *limitsMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	m.note(in, p.st)
	switch x := ins.(type) {
	case *ssa.Select:
		if !x.Blocking {
			return
		}
		m.wait(in, fr, p.st, ins, "wait", p.st.d["timer"] != "" || p.st.d["tick"] != "")
		delete(p.st.d, "timer")
	case *ssa.Return:
		if dbgL && len(x.Results) > 0 {
			println("RET", in.rec, in.pr.fname(fr.fn), p.st.d["dirty"], valString(in.get(p, x.Results[0])), valString(p.st.g["added"]))
			if in.rec {
				println(p.st.num.String())
			}
		}
		if fr.parent == nil && in.curRoot != nil && in.curRoot.kind == "http" {
			m.wait(in, fr, p.st, ins, "return", true)
		}
	}
}

func (m *limitsMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if _, ok := ins.(*ssa.Select); ok && isTime(t) {
		st.d["fired"] = "1"
	}
	return nil
}

func init() {
	register(&Property{id: "C04", level: "other", rule: "abstract interpretation: wherever a listener or writer waits for data its batch is empty or below its count, age and size limits", run: func(c *Ctx) {
		modes := []string{"listener", "listener_http", "writer"}
		var mods []*limitsMod
		runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
			if !strings.Contains(" "+strings.Join(modes, " ")+" ", " "+cp.mode+" ") {
				return nil, nil
			}
			m := &limitsMod{c: c, mode: cp.mode, waits: map[*Root][]waitPoint{}, age: map[*Root]bool{}}
			mods = append(mods, m)
			in := newInterp(c.pr, m)
			apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
			useContracts(in)
			in.byteCounts = true
			in.onConfig = func(p VPtr) { m.cfg = p }
			return in, func(_ *Root, st *State) *State {
				// keep the relations to the limits through joins
				c := &Call{in: in, st: st}
				for k, l := range map[string]*Lin{"0count": cfgLin(c, m.cfg, "BatchMaxCount"), "0size": cfgLin(c, m.cfg, "BatchMaxSize"), "0age": m.maxAge(st)} {
					if l != nil {
						st.g[k] = VInt{l}
						if n := st.num.assumeLe(l.neg()); k == "0age" && n != nil {
							st.num = n
						}
					}
				}
				return st
			}
		})
		for _, m := range mods {
			timed := 0
			for r, ws := range m.waits {
				if !m.age[r] {
					if r.kind == "http" {
						for _, w := range ws {
							c.oblige(w.key, w.ok, w.where, w.msg)
						}
					}
					continue
				}
				for _, w := range ws {
					c.oblige(w.key, w.ok, w.where, w.msg)
					if strings.HasPrefix(w.key, "timed") {
						timed++
					}
					c.inst("waits " + m.mode)
				}
			}
			c.oblige("age watched:"+m.mode, timed > 0, m.mode, "nothing looks at the age of the batch while no data arrives")
			c.need("waits "+m.mode, 1)
		}
	}})
}

var dbgL = os.Getenv("DBGL") != ""
