package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a writer does with the chunks it writes to InfluxDB: how it asks, how
// it judges the answer, and what happens to chunks which could not be
// written.

type writerMod struct {
	BaseModule
	c        *Ctx
	want     map[string]bool
	cfg      VPtr
	elemType types.Type
	fields   map[int]string // id of a term -> configuration field
	timers   map[string]bool
	ghost    bool
}

func (m *writerMod) check(in *Interp, prop, key string, ok bool, where, msg string) {
	if in.rec && m.want[prop] {
		m.c.oblige(prop+":"+key, ok, where, msg)
		m.c.inst(prop + " " + strings.SplitN(key, ":", 2)[0])
	}
}

func (m *writerMod) inWorker(in *Interp) bool { return m.role(in) == "worker" }
func (m *writerMod) inRetry(in *Interp) bool  { return m.role(in) == "retry" }

// role tells the goroutines of the writer apart: the worker starts the retry
// goroutine while it runs.
func (m *writerMod) role(in *Interp) string {
	r := in.curRoot
	if r == nil || r.kind != "go" {
		return ""
	}
	f := r.states[0].env[rootFnKey].(VFunc).Fn
	if !reaches(in.pr, f, func(n string) bool { return n == "(*net/http.Client).Do" }) {
		return ""
	}
	if reaches(in.pr, f, func(n string) bool { return strings.HasPrefix(n, "(*container/list.List).Push") }) {
		return "retry"
	}
	return "worker"
}

var reachMemo = map[*ssa.Function]map[string]bool{}

// reaches reports whether f may call a function, following static calls,
// closures and methods of the repository called through interfaces.
func reaches(pr *Program, f *ssa.Function, is func(string) bool) bool {
	names := reachMemo[f]
	if names == nil {
		names = map[string]bool{}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if g == nil || seen[g] {
				return
			}
			seen[g] = true
			names[pr.fname(g)] = true
			if !pr.inRepo(g) {
				return
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if _, ok := i.(*ssa.Go); ok {
						continue
					}
					if ci, ok := i.(ssa.CallInstruction); ok {
						cc := ci.Common()
						if h := cc.StaticCallee(); h != nil {
							walk(h)
						} else if cc.IsInvoke() {
							for _, h := range pr.implementers(cc.Method) {
								walk(h)
							}
						}
					}
					if mc, ok := i.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		walk(f)
		reachMemo[f] = names
	}
	for n := range names {
		if is(n) {
			return true
		}
	}
	return false
}

// implementers lists the methods of the repository an interface method may
// stand for.
func (pr *Program) implementers(m *types.Func) []*ssa.Function {
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range pr.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			pt := types.NewPointer(t)
			if !types.Implements(pt, it) {
				continue
			}
			if s := pr.prog.MethodSets.MethodSet(pt).Lookup(m.Pkg(), m.Name()); s != nil {
				if f := pr.prog.MethodValue(s); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- requests

func (m *writerMod) cfgNames(st *State) {
	m.fields = map[int]string{}
	o := st.obj(m.cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	u := o.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch x := getPath(v, []int{i}).(type) {
		case VStr:
			m.fields[x.T.id] = u.Field(i).Name()
		case VInt:
			m.fields[linTerm1(x.L).id] = u.Field(i).Name()
		}
	}
}

// spell writes a string term as text with the configuration fields in it.
func (m *writerMod) spell(t *Term) string {
	if t == nil {
		return "?"
	}
	if n := m.fields[t.id]; n != "" {
		return "<" + n + ">"
	}
	switch {
	case strings.HasPrefix(t.op, "str:"):
		return strings.TrimPrefix(t.op, "str:")
	case t.op == "+":
		return m.spell(t.args[0]) + m.spell(t.args[1])
	case t.op == "itoa":
		return m.spell(t.args[0])
	case t.op == "escape":
		return "escape(" + m.spell(t.args[0]) + ")"
	case t.op == "sprintf" && len(t.args) > 0:
		f := t.args[0]
		if !strings.HasPrefix(f.op, "str:") {
			return "?"
		}
		s, n, out := strings.TrimPrefix(f.op, "str:"), 1, ""
		for i := 0; i < len(s); i++ {
			if s[i] != '%' || i+1 == len(s) {
				out += s[i : i+1]
				continue
			}
			i++
			switch s[i] {
			case '%':
				out += "%"
			case 's', 'v', 'd':
				if n >= len(t.args) {
					return "?"
				}
				out += m.spell(t.args[n])
				n++
			default:
				return "?"
			}
		}
		return out
	}
	return "?"
}

func (m *writerMod) strField(st *State, name string) VStr {
	o := st.obj(m.cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	s, _ := getPath(v, []int{fieldIdx(o.typ, name)}).(VStr)
	return s
}

func (m *writerMod) isField(st *State, v Val, name string) bool {
	s, ok := unwrap(v).(VStr)
	return ok && s.T == m.strField(st, name).T
}

func (m *writerMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	where := in.pos(c.fr, c.instr)
	switch c.name {
	case "net/url.QueryEscape", "net/url.PathEscape":
		t := tm("escape", c.str(0).T)
		if c.name == "net/url.PathEscape" {
			t = tm("pathescape", c.str(0).T)
		}
		return c.outs(VStr{T: t, Len: linV(symVar(t, "len", i128(0), i128(maxLen)))}), true
	case "strconv.Itoa":
		t := tm("itoa", linTerm1(c.lin(0)))
		return c.outs(VStr{T: t, Len: linV(symVar(t, "len", i128(0), i128(20)))}), true
	case "net/http.NewRequest":
		if m.role(in) == "" {
			return nil, false
		}
		s, _ := dataOut(c)
		meth, _ := c.constStr(0)
		m.check(in, "C19", "method", meth == "POST", where, "data is not sent with a POST request")
		m.fields = nil
		m.cfgNames(st)
		url := m.spell(c.str(1).T)
		m.check(in, "C19", "url", url == "<InfluxDBProtocol>://<InfluxDBAddress>:<InfluxDBPort>/write?db=escape(<DBName>)", where, "the request goes to "+url)
		m.unhandled(in, st, where)
		m.writing(c, s, where)
		st.g["chunk"] = s
		delete(st.d, "queued")
		delete(st.d, "auth")
		st.d["class"] = "refused"
		outs := c.okOrErr("request")
		delete(outs[0].st.d, "class")
		return outs, true
	case "(*net/http.Client).Do", "(*net/http.Client).Post", "net/http.Post":
		if m.role(in) == "" {
			return nil, false
		}
		m.doing(c, where)
		return m.answers(c), true
	case "net/http.DefaultClient.Do":
		m.check(in, "C19", "timeout", false, where, "the request has no time limit")
	case "(*net/http.Request).SetBasicAuth":
		if m.isField(st, c.arg(1), "InfluxDBUser") && m.isField(st, c.arg(2), "InfluxDBPass") {
			st.d["auth"] = "1"
		} else {
			m.check(in, "C20", "auth", false, where, "a request carries other credentials than the configured ones")
		}
	case "(io.Closer).Close", "(io.ReadCloser).Close":
		if v, ok := st.g["body"]; ok && sameRes(v, c.arg(0)) || ok && valString(v) == valString(c.arg(0)) {
			delete(st.g, "body")
		}
	case "(*batch.Batch).Reset":
		if m.inWorker(in) {
			m.unhandled(in, st, where)
			m.handled(st)
			delete(st.d, "queued")
		}
	}
	if m.inWorker(in) && m.want["C21"] {
		if outs, ok := m.gate(c, where); ok {
			return outs, true
		}
	}
	if m.inRetry(in) {
		if outs, ok := m.list(c, where); ok {
			return outs, true
		}
	}
	return nil, false
}

// doing checks a request when it is sent.
func (m *writerMod) doing(c *Call, where string) {
	st, in := c.st, c.in
	p, ok := c.arg(0).(VPtr)
	good := false
	if ok && c.name == "(*net/http.Client).Do" && st.hasObj(p.Obj) {
		for _, r := range in.load(st, VPtr{Obj: p.Obj, Path: p.Path}) {
			if s, ok := r.v.(VStruct); ok {
				t, ok := s.field(fieldIdx(s.typ, "Timeout")).(VInt)
				want := m.cfgDur(st, "WriteTimeout")
				good = ok && want != nil && eqBoth(st, t.L, want) && st.num.lt(t.L.neg())
			}
		}
	}
	m.check(in, "C19", "timeout", good, where, "the request is not limited to the configured write timeout")
	user := m.strField(st, "InfluxDBUser")
	none := false
	if b, known := in.eval(st, strEq(user, vstr(""))); known && b {
		none = true
	}
	m.check(in, "C20", "auth", st.d["auth"] != "" || none, where, "a request is sent without the configured credentials")
}

// cfgDur reads a duration (a struct with one number) from the configuration.
func (m *writerMod) cfgDur(st *State, name string) *Lin { return cfgDur(st, m.cfg, name) }

func cfgDur(st *State, cfg VPtr, name string) *Lin {
	o := st.obj(cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	x := getPath(v, []int{fieldIdx(o.typ, name)})
	for {
		s, ok := x.(VStruct)
		if !ok || len(s.F) == 0 {
			break
		}
		x = s.field(0)
	}
	if i, ok := x.(VInt); ok {
		return i.L
	}
	return nil
}

// answers forks into the ways a request can end (net/http reads statuses of
// three digits).
func (m *writerMod) answers(c *Call) []Outcome {
	var outs []Outcome
	base := c.st
	respT := c.resType(0).(*types.Pointer).Elem()
	for _, k := range []struct {
		class  string
		lo, hi int64
	}{{"lo", 0, 199}, {"2xx", 200, 299}, {"3xx", 300, 399}, {"4xx", 400, 499}, {"hi", 500, 999}} {
		st := base.clone()
		st.d["class"] = k.class
		t := freshTerm("response")
		v := symVal(respT, t).(VStruct)
		v = v.with(fieldIdx(respT, "StatusCode"), VInt{freshLin("status", i128(k.lo), i128(k.hi))})
		body := v.field(fieldIdx(respT, "Body"))
		if iv, ok := body.(VIface); ok && iv.T != nil {
			st.facts[nilKey(iv.T)] = false
		}
		st.g["body"] = body
		id := st.alloc(&Obj{kind: oCell, typ: respT, val: v, site: "response"})
		outs = append(outs, Outcome{st, VTuple{[]Val{VPtr{Obj: id}, VNil{}}}})
	}
	st := base.clone()
	st.d["class"] = "failed"
	outs = append(outs, Outcome{st, VTuple{[]Val{VNil{}, errVal(st, "do.err")}}})
	return outs
}

// Post judges what the function which makes the request returns.
func (m *writerMod) Post(c *Call, o *Outcome) {
	st, in := o.st, c.in
	if m.want["C21"] && m.inWorker(in) {
		curPost(c, o)
	}
	if c.name == "time.Now" {
		if m.inRetry(in) {
			st.g["now"] = o.ret
		}
		return
	}
	if c.name == "time.After" || c.name == "time.NewTimer" || c.name == "time.NewTicker" {
		if m.inRetry(in) {
			want := m.cfgDur(st, "WriterRetryInterval")
			m.check(in, "C17", "interval", want != nil && eqBoth(st, c.lin(0), want), in.pos(c.fr, c.instr), "retries do not follow the configured interval")
		}
		return
	}
	if c.fn == nil || !in.pr.inRepo(c.fn) || m.role(in) == "" || st.d["class"] == "" {
		return
	}
	sig := c.fn.Signature
	if sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) || sig.Params().Len() != 1 || !isByteSlice(sig.Params().At(0).Type()) {
		return
	}
	where := in.pr.fname(c.fn)
	k := st.d["class"]
	isNil := mustNil(st, o.ret)
	isErr := mustNonNil(st, o.ret)
	if k == "2xx" {
		m.check(in, "C18", "success", isNil, where, "a write answered with a 2xx status is reported as failed")
	} else {
		m.check(in, "C18", "failure", isErr, where, "a write which was not answered with a 2xx status is reported as successful")
	}
	_, open := st.g["body"]
	m.check(in, "C19", "body", !open, where, "the body of the answer is not closed")
	delete(st.g, "body")
	st.d["done"] = "1"
	if m.inWorker(in) {
		max := cfgLin(&Call{in: in, st: st}, m.cfg, "WriterRetryBatches")
		if k == "2xx" || max != nil && st.num.le(max) {
			m.handled(st)
		} else {
			st.d["class"] = "bad"
		}
	}
}

// handled forgets the chunk that was written last.
func (m *writerMod) handled(st *State) {
	for _, k := range []string{"class", "done", "auth"} {
		delete(st.d, k)
	}
	delete(st.g, "chunk")
	delete(st.g, "copy")
}

func mustNonNil(st *State, v Val) bool {
	switch x := v.(type) {
	case VIface:
		if x.Dyn != nil {
			return true
		}
		b, ok := st.facts[nilKey(x.T)]
		return ok && !b
	case VPtr:
		if x.T == nil {
			return true
		}
		b, ok := st.facts[nilKey(x.T)]
		return ok && !b
	case VAlt:
		for _, a := range x.A {
			if !mustNonNil(st, a) {
				return false
			}
		}
		return len(x.A) > 0
	}
	return false
}

// ---------------------------------------------------------------- credentials

// ---------------------------------------------------------------- failed chunks

// unhandled is called where a chunk which could not be written must have been
// queued for a retry.
func (m *writerMod) unhandled(in *Interp, st *State, where string) {
	if !m.inWorker(in) || st.d["class"] == "" || st.d["class"] == "2xx" {
		return
	}
	max := cfgLin(&Call{in: in, st: st}, m.cfg, "WriterRetryBatches")
	off := max != nil && st.num.le(max)
	m.check(in, "C16", "queued", st.d["queued"] == "1" || off, where, "a chunk which could not be written is not queued for a retry")
}

func (m *writerMod) Bulk(in *Interp, fr *Frame, st *State, dst ObjID, lo, n *Lin, src *VSlice, ins ssa.Instruction) {
	if !m.inWorker(in) {
		return
	}
	ch, ok := st.g["chunk"].(VSlice)
	if c, ok2 := st.g["copy"].(VSlice); ok2 && c.R[0] == dst {
		delete(st.g, "copy") // overwritten
	}
	if ok && src != nil && len(src.R) == 1 && len(ch.R) == 1 && src.R[0] == ch.R[0] && src.R[0] != dst && eqBoth(st, src.Off, ch.Off) && eqBoth(st, n, ch.Len) {
		st.g["copy"] = VSlice{R: []ObjID{dst}, Off: lo, Len: n, Cap: n}
	}
}

func (m *writerMod) Send(in *Interp, fr *Frame, st *State, ch, v Val, ins ssa.Instruction) {
	s, ok := v.(VSlice)
	if !ok || !m.inWorker(in) {
		return
	}
	where := in.pos(fr, ins)
	_, blocking := ins.(*ssa.Send)
	cp, ok := st.g["copy"].(VSlice)
	good := ok && len(s.R) == 1 && s.R[0] == cp.R[0] && eqBoth(st, s.Off, cp.Off) && eqBoth(st, s.Len, cp.Len)
	m.check(in, "C16", "copy", good, where, "what is queued for a retry is not a separate copy of the chunk which could not be written")
	m.check(in, "C16", "failed", st.d["class"] != "" && st.d["class"] != "2xx" && st.d["done"] != "", where, "a chunk which was written is queued for a retry")
	m.check(in, "C16", "once", st.d["queued"] == "", where, "a chunk is queued for a retry more than once")
	m.check(in, "C16", "certain", blocking, where, "the chunk is dropped if the retry queue is busy")
	m.check(in, "C16", "queued", true, where, "")
	st.d["queued"] = "1"
	m.handled(st)
}

func (m *writerMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if m.inWorker(in) && m.want["C21"] {
		if p, ok := t.(*types.Pointer); ok && typeName(p.Elem()) == "nats.Msg" {
			v := nonNil(symVal(t, freshTerm("message"))).(VPtr)
			for _, r := range in.load(st, VPtr{Obj: v.Obj, Path: []int{fieldIdx(p.Elem(), "Data")}}) {
				if s, ok := r.v.(VSlice); ok {
					curStart(st, s)
				}
			}
			return v
		}
	}
	if m.inRetry(in) {
		if isTime(t) {
			st.d["tick"] = "1"
		}
		if isByteSlice(t) {
			v := nonNil(symVal(t, freshTerm("failed chunk")))
			st.g["got"] = v
			return v
		}
	}
	return nil
}

func (m *writerMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	st := p.st
	sel, ok := ins.(*ssa.Select)
	if !ok || !sel.Blocking && len(sel.States) == 1 && sel.States[0].Dir == types.SendOnly {
		return
	}
	where := in.pos(fr, ins)
	switch m.role(in) {
	case "worker":
		m.stored(in, st, where)
		m.unhandled(in, st, where)
		m.handled(st)
		delete(st.d, "queued")
	case "retry":
		m.settled(in, st, where)
	}
}

// ---------------------------------------------------------------- rules

// noRules reports whether the writer is known to have no rules, or some.
func (m *writerMod) rules(in *Interp, st *State) (none, some bool) {
	n := m.nrules(in, st)
	return n != nil && st.num.le(n), n != nil && st.num.le(linC(1).sub(n))
}

func (m *writerMod) nrules(in *Interp, st *State) *Lin {
	for _, x := range st.heap {
		if x.kind == oCell && typeName(x.typ) == "filter.RuleSet" {
			w := x.val
			if w == nil {
				w = cellInit(x)
			}
			if s, ok := sliceOf(getPath(w, []int{0})); ok {
				return s.Len
			}
		}
	}
	return nil
}

func (m *writerMod) gate(c *Call, where string) ([]Outcome, bool) {
	st, in := c.st, c.in
	switch {
	case strings.HasPrefix(c.name, "(*filter.RuleSet).Lookup"):
		s, ok := sliceOf(c.arg(1))
		if !ok {
			panic(undecided{"what the rules look at is not a byte slice"})
		}
		if !curIs(st, s) {
			m.line(in, st, where)
			m.check(in, "C21", "order", curNext(st, s), where, "the rules do not look at the received lines one after the other")
		}
		m.check(in, "C21", "rules", true, where, "")
		s2 := st.clone()
		st.d["line"], s2.d["line"] = "matched", "seen"
		r := freshLin("rule", i128(0), i128(maxLen))
		if n := m.nrules(in, st); n != nil {
			st.num = st.num.addCon(r.addC(1).sub(n), false)
		}
		return []Outcome{{st, VInt{r}}, {s2, vint(-1)}}, true
	case strings.HasPrefix(c.name, "(*batch.Batch)."):
		if c.fr == nil || strings.HasPrefix(in.pr.fname(c.fr.fn), "(*batch.Batch).") {
			return nil, false
		}
		var s VSlice
		found := false
		for i := 0; i < len(c.args); i++ {
			if x, ok := c.arg(i).(VSlice); ok {
				s, found = x, true
			}
		}
		if !found {
			// the limits are looked at: done with the data?
			if _, busy := st.g["cur.data"]; busy && m.settledData(in, st) {
				m.check(in, "C21", "all", true, where, "")
				m.fresh21(st)
			}
			return nil, false
		}
		d, ok := st.g["cur.data"].(VSlice)
		none, some := m.rules(in, st)
		switch {
		case none && ok && sameSlice(st, d, s):
			m.check(in, "C21", "once", st.d["stored"] == "", where, "received data is stored twice")
			st.d["stored"] = "1"
			m.check(in, "C21", "stored", true, where, "")
		case some:
			m.check(in, "C21", "matched", st.d["line"] == "matched" && curIs(st, s), where, "a line is stored which no rule matched")
			st.d["line"] = "done"
		default:
			m.check(in, "C21", "known", false, where, "something other than received data or matched lines is stored")
		}
	}
	return nil, false
}

// line is called when the next line is taken.
func (m *writerMod) line(in *Interp, st *State, where string) {
	switch st.d["line"] {
	case "matched":
		m.check(in, "C21", "kept", false, where, "a line which a rule matched is not stored")
	case "new":
		l, ok := st.g["cur.line"].(VSlice)
		m.check(in, "C21", "looked", ok && st.num.le(l.Len), where, "a line is skipped without looking at the rules")
	}
	delete(st.d, "line")
}

// stored is called where the worker waits for more data.
func (m *writerMod) stored(in *Interp, st *State, where string) {
	if !m.want["C21"] {
		return
	}
	if d, ok := st.g["cur.data"].(VSlice); ok {
		m.line(in, st, where)
		none, _ := m.rules(in, st)
		if none {
			m.check(in, "C21", "all", st.d["stored"] != "" || st.num.le(d.Len), where, "received data is not stored")
		} else {
			m.check(in, "C21", "all", curDone(st), where, "not all received lines are looked at")
		}
	}
	m.fresh21(st)
}

func (m *writerMod) fresh21(st *State) {
	curClear(st)
	delete(st.d, "line")
	delete(st.d, "stored")
}

// settledData reports whether all received data was dealt with.
func (m *writerMod) settledData(in *Interp, st *State) bool {
	d, ok := st.g["cur.data"].(VSlice)
	if !ok {
		return true
	}
	if none, _ := m.rules(in, st); none {
		return st.d["stored"] != "" || st.num.le(d.Len)
	}
	switch st.d["line"] {
	case "matched":
		return false
	case "new":
		if l, ok := st.g["cur.line"].(VSlice); !ok || !st.num.le(l.Len) {
			return false
		}
	}
	return curDone(st)
}

func (m *writerMod) Sig(in *Interp, st *State) string { return curSig(st) }

func (m *writerMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if !m.want["C21"] || !m.inWorker(in) {
		return
	}
	old, had := st.g["cur.line"]
	next, ok := curLoad(st, ptr, v)
	if next {
		cur := st.g["cur.line"]
		if had {
			st.g["cur.line"] = old
		}
		m.line(in, st, in.pos(fr, ins))
		st.g["cur.line"] = cur
		st.d["line"] = "new"
	}
	m.check(in, "C21", "order", ok, in.pos(fr, ins), "lines are skipped")
}

// ---------------------------------------------------------------- the retry queue

func (m *writerMod) qlen(st *State) *Lin {
	if v, ok := st.g["qlen"].(VInt); ok {
		return v.L
	}
	return linC(0)
}

func (m *writerMod) maxLen(in *Interp, st *State) *Lin {
	return cfgLin(&Call{in: in, st: st}, m.cfg, "WriterRetryBatches")
}

// settled is called where the retry goroutine waits.
func (m *writerMod) settled(in *Interp, st *State, where string) {
	max := m.maxLen(in, st)
	m.check(in, "C17", "bound", max != nil && st.num.le(m.qlen(st).sub(max)), where, "the retry queue may hold more chunks than configured")
	_, pend := st.g["got"]
	m.check(in, "C17", "kept", !pend, where, "a chunk handed over for a retry is not put into the queue")
	delete(st.g, "got")
	w, written := st.g["written"]
	if written {
		k := st.d["class"]
		if k == "2xx" || k == "4xx" || k == "refused" {
			m.check(in, "C18", "dropped "+k, st.d["removed"] != "", where, "a chunk stays in the retry queue although it was written or refused for good")
		} else {
			m.check(in, "C17", "cycled", st.d["removed"] != "" || st.d["moved"] != "", where, "a chunk which could not be written stays in front of the others")
		}
	}
	_ = w
	delete(st.g, "written")
	for _, k := range []string{"class", "removed", "moved", "done"} {
		delete(st.d, k)
	}
}

func (m *writerMod) elemOf(c *Call, id ObjID) (VStruct, bool) {
	o := c.st.obj(id)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	s, ok := v.(VStruct)
	if !ok {
		return s, false
	}
	e, ok := unwrap(s.field(fieldIdx(o.typ, "Value"))).(VStruct)
	return e, ok
}

// parts gives the chunk and the expiry time of a queued item.
func parts(v VStruct) (buf VSlice, ttl *Lin, ok bool) {
	u, isS := v.typ.Underlying().(*types.Struct)
	if !isS {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		switch x := v.field(i).(type) {
		case VSlice:
			buf, ok = x, true
		case VInt:
			if isTime(u.Field(i).Type()) {
				ttl = x.L
			}
		}
	}
	return buf, ttl, ok && ttl != nil
}

func (m *writerMod) writing(c *Call, s VSlice, where string) {
	if !m.inRetry(c.in) {
		return
	}
	st := c.st
	good, alive := false, false
	for _, k := range []string{"front"} {
		id, ok := objOf(st.g[k])
		if !ok {
			continue
		}
		if e, ok := m.elemOf(c, id); ok {
			buf, ttl, ok := parts(e)
			if ok && len(buf.R) == 1 && len(s.R) == 1 && buf.R[0] == s.R[0] && eqBoth(st, buf.Len, s.Len) && eqBoth(st, buf.Off, s.Off) {
				good = true
				st.g["written"] = st.g[k]
				now, ok := st.g["now"].(VInt)
				alive = ok && st.num.le(now.L.sub(ttl))
			}
		}
	}
	m.check(c.in, "C17", "front", good, where, "what is retried is not the chunk in front of the queue")
	m.check(c.in, "C17", "expired", alive, where, "a chunk is retried although its time is over")
	m.check(c.in, "C17", "paced", st.d["tick"] != "", where, "chunks are retried without waiting for the retry interval")
	delete(st.d, "tick")
	delete(st.d, "removed")
	delete(st.d, "moved")
}

// newElem is an item of the queue nothing is known about.
func (m *writerMod) newElem(c *Call, st *State) Val {
	pt := c.rtyp.(*types.Pointer).Elem()
	v := symVal(pt, freshTerm("element")).(VStruct)
	if m.elemType != nil {
		item := symVal(m.elemType, freshTerm("item")).(VStruct)
		u := m.elemType.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			item = item.with(i, nonNil(item.field(i)))
		}
		v = v.with(fieldIdx(pt, "Value"), VIface{Dyn: m.elemType, V: item})
	}
	return VPtr{Obj: st.alloc(&Obj{kind: oCell, typ: pt, val: v, site: "list element"})}
}

func (m *writerMod) list(c *Call, where string) ([]Outcome, bool) {
	st, in := c.st, c.in
	n := m.qlen(st)
	switch c.name {
	case "(*container/list.List).Len":
		return c.outs(VInt{n}), true
	case "(*container/list.List).Init":
		m.check(in, "C17", "dropped", st.num.le(n), where, "the retry queue is emptied")
		st.g["qlen"] = VInt{linC(0)}
		return c.outs(c.arg(0)), true
	case "(*container/list.List).PushBack", "(*container/list.List).PushFront":
		item, _ := c.arg(1).(VIface)
		e, ok := item.V.(VStruct)
		if !ok {
			panic(undecided{"what is queued is not a struct"})
		}
		m.elemType = item.Dyn
		buf, ttl, ok := parts(e)
		got, ok2 := st.g["got"].(VSlice)
		m.check(in, "C17", "queued", ok && ok2 && len(buf.R) == 1 && buf.R[0] == got.R[0] && eqBoth(st, buf.Len, got.Len) && eqBoth(st, buf.Off, got.Off), where, "what is put into the queue is not what was handed over")
		now, ok3 := st.g["now"].(VInt)
		d := m.cfgDur(st, "WriterRetryTimeout")
		m.check(in, "C17", "lifetime", ok && ok3 && d != nil && eqBoth(st, ttl, now.L.add(d)), where, "a queued chunk does not expire after the configured time")
		m.check(in, "C17", "order", c.name == "(*container/list.List).PushBack", where, "a chunk is put in front of those which wait already")
		delete(st.g, "got")
		st.g["qlen"] = VInt{n.addC(1)}
		return c.outs(nonNil(c.fresh("element"))), true
	case "(*container/list.List).Front", "(*container/list.List).Back":
		s2 := st.clone()
		var outs []Outcome
		if k := st.num.assumeLe(n.neg().addC(1)); k != nil {
			st.num = k
			f, ok := st.g["front"]
			if c.name != "(*container/list.List).Front" || !ok {
				f = m.newElem(c, st)
				if c.name == "(*container/list.List).Front" {
					st.g["front"] = f
				}
			}
			outs = append(outs, Outcome{st, f})
		}
		if k := s2.num.assumeLe(n); k != nil {
			s2.num = k
			outs = append(outs, Outcome{s2, VNil{}})
		}
		return outs, true
	case "(*container/list.Element).Next", "(*container/list.Element).Prev":
		s2 := st.clone()
		return []Outcome{{st, m.newElem(c, st)}, {s2, VNil{}}}, true
	case "(*container/list.List).Remove", "(*container/list.List).MoveToBack", "(*container/list.List).MoveToFront":
		rm := strings.HasSuffix(c.name, "Remove")
		w, written := st.g["written"]
		mine := written && sameRes(w, c.arg(1))
		f, isF := st.g["front"]
		if isF && sameRes(f, c.arg(1)) || !isF {
			delete(st.g, "front")
		}
		k := st.d["class"]
		if rm {
			expired, full := false, false
			if id, ok := objOf(c.arg(1)); ok {
				if e, ok := m.elemOf(c, id); ok {
					_, ttl, ok := parts(e)
					now, ok2 := st.g["now"].(VInt)
					expired = ok && ok2 && st.num.lt(ttl.sub(now.L))
				}
			}
			_, pend := st.g["got"]
			max := m.maxLen(in, st)
			full = pend && max != nil && st.num.le(max.sub(n))
			done := mine && (k == "2xx" || k == "4xx" || k == "refused")
			m.check(in, "C17", "lost", done || expired || full || mine, where, "a chunk is removed from the retry queue although it is neither written, refused, expired nor in the way of a new one")
			m.check(in, "C18", "retried "+k, !mine || done || expired || full, where, "a chunk is removed from the retry queue although writing it failed for the time being")
			st.g["qlen"] = VInt{n.addC(-1)}
			if mine {
				st.d["removed"] = "1"
			}
			return c.outs(c.fresh("removed")), true
		}
		if mine && strings.HasSuffix(c.name, "Back") {
			st.d["moved"] = "1"
		}
		return c.outs(VTuple{}), true
	}
	return nil, false
}

func runWriter(c *Ctx, props ...string) {
	want := map[string]bool{}
	for _, p := range props {
		want[p] = true
	}
	m := &writerMod{c: c, want: want}
	in := newInterp(c.pr, m)
	in.onConfig = func(p VPtr) { m.cfg = p }
	apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With", "(*filter.RuleSet).Lookup")
	useContracts(in)
	hide := in.opaque
	in.opaque = func(k *Call) bool { return hide(k) && !strings.HasPrefix(k.name, "(*writer.") }
	for _, cp := range componentList {
		if cp.mode == "writer" {
			runComponent(c, in, cp, func(r *Root, st *State) *State {
				st.d, st.g = map[string]string{}, map[string]Val{}
				return st
			})
		}
	}
	c.absorb(in)
}

func init() {
	reg := func(id, rule string, need map[string]int) {
		register(&Property{id: id, level: "other", rule: "abstract interpretation of the writer's goroutines: " + rule, run: func(c *Ctx) {
			runWriter(c, id)
			if id == "C20" {
				checkSecret(c, "confined")
			}
			for k, n := range need {
				c.need(id+" "+k, n)
			}
		}})
	}
	reg("C16", "typestate of a chunk whose write failed", map[string]int{"queued": 1, "copy": 1})
	reg("C17", "length of the retry queue, and the reason for every removal from it", map[string]int{"bound": 1, "lost": 1, "front": 1, "lifetime": 1})
	reg("C18", "outcome of a write against the class of the answer", map[string]int{"success": 1, "failure": 1, "dropped 2xx": 1, "dropped 4xx": 1})
	reg("C19", "target, time limit and clean-up of every request", map[string]int{"url": 1, "timeout": 1, "body": 1})
	reg("C21", "received data and lines up to the batch", map[string]int{"rules": 1, "matched": 1, "stored": 1, "all": 1})
	reg("C20", "credentials on every request, and every other way out of the program", map[string]int{"auth": 1})
}
