package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Life cycle of a component: what its start function acquires, what it
// releases when it fails, what Stop releases, when it reports ready and how
// its NATS connections and subscriptions are set up.

type lifeMod struct {
	BaseModule
	c      *Ctx
	mode   string
	cfg    VPtr
	comp   types.Type // the struct the start function returns
	phase  string     // start, stop, root
	opts   map[string]string
	events []lifeEvent
	closed map[string]map[string]bool // channels closed to stop goroutines, and by whom
	sends  []lifeEvent
	waited map[string]bool
	dones  map[string]string
	served map[string]string
	shut   map[string]bool
	seen   map[string]bool
	want   map[string]bool // kinds of obligations
}

type lifeEvent struct {
	key, where string
	root       string
	sites      []string // channels the operation can be woken up by
	after      []string // channels received from before
}

func (m *lifeMod) check(in *Interp, kind, key string, ok bool, where, msg string) {
	if in.rec && m.want[kind] {
		m.c.oblige(kind+":"+m.mode+":"+key, ok, where, msg)
		m.c.inst(kind + " " + m.mode)
	}
}

// caller is the innermost function of the repository on the call path.
func (m *lifeMod) caller(c *Call) string {
	for f := c.fr; f != nil; f = f.parent {
		if c.in.pr.inRepo(f.fn) {
			return c.in.pr.fname(f.fn)
		}
	}
	return "?"
}

// chain names the functions of the repository on the call path.
func (m *lifeMod) chain(c *Call) string {
	var s []string
	for f := c.fr; f != nil; f = f.parent {
		if c.in.pr.inRepo(f.fn) && (f.parent != nil || len(s) == 0) {
			s = append(s, c.in.pr.fname(f.fn))
		}
	}
	return strings.Join(s, "<")
}

func (m *lifeMod) hold(in *Interp, st *State, kind, by string, v Val, where string) {
	key := "res:" + kind + "@" + by
	if _, ok := st.g[key]; ok && kind != "goroutine" && kind != "subscription" {
		m.check(in, "release", "lost:"+kind+":"+by, false, where, "another "+kind+" is opened while an earlier one opened here has not been handed on or closed")
	}
	st.g[key] = v
}

func heapReach(st *State, vs ...Val) *reachSet {
	r := newReach()
	for _, v := range vs {
		r.val(v)
	}
	r.close(st)
	return r
}

func objOf(v Val) (ObjID, bool) {
	switch x := unwrap(v).(type) {
	case VPtr:
		return x.Obj, true
	}
	return 0, false
}

func sameRes(a, b Val) bool {
	x, ok := objOf(a)
	y, ok2 := objOf(b)
	if ok && ok2 {
		return x == y
	}
	return !ok && !ok2 && valString(a) == valString(b)
}

func (m *lifeMod) release(st *State, kind string, v Val) {
	for k, r := range st.g {
		if strings.HasPrefix(k, "res:"+kind+"@") && sameRes(r, v) {
			delete(st.g, k)
		}
	}
}

func (m *lifeMod) held(st *State) []string {
	var out []string
	for k := range st.g {
		if strings.HasPrefix(k, "res:") && !strings.HasPrefix(k, "res:subscription@") {
			out = append(out, strings.TrimPrefix(k, "res:"))
		}
	}
	sort.Strings(out)
	return out
}

func isTrue(v Val) bool {
	b, ok := v.(VBool)
	return ok && valString(b) == valString(vbool(true))
}

func (m *lifeMod) Pre(c *Call) ([]Outcome, bool) {
	st := c.st
	switch {
	case c.name == "nats.Connect":
		ok, why := m.reconnects(c)
		m.check(c.in, "reconnect", m.caller(c), ok, c.in.pos(c.fr, c.instr), why)
	case c.name == "(nats.Options).Connect":
		m.check(c.in, "reconnect", m.caller(c), false, c.in.pos(c.fr, c.instr), "the connection is made with options which are not known to reconnect forever")
	case strings.HasSuffix(c.name, ").SetReady"):
		if m.phase == "root" && c.in.curRoot.kind != "go" {
			return nil, false
		}
		if isTrue(c.arg(1)) {
			m.ready(c)
			st.d["ready"] = "1"
		} else {
			delete(st.d, "ready")
		}
	case strings.HasSuffix(c.name, "sync.WaitGroup).Add"):
		if l := c.lin(1); l != nil {
			st.g["running"] = VInt{m.running(st).add(l)}
		}
	case strings.HasSuffix(c.name, "sync.WaitGroup).Done"):
		if m.phase == "root" && c.in.curRoot.kind == "go" {
			m.check(c.in, "stops", m.where(c.in)+":done", st.d["done"] == "", c.in.pos(c.fr, c.instr), "signals twice that it has ended")
			st.d["done"] = "1"
			if c.in.rec {
				m.dones[wgSite(st, c.arg(0))] = c.in.pos(c.fr, c.instr)
			}
		}
	case strings.Contains(c.name, "WaitGroup).Wait"):
		m.counted(c.in, st, c.in.pos(c.fr, c.instr))
		if c.in.rec {
			m.waited[wgSite(st, c.arg(0))] = true
		}
		delete(st.d, "signalled")
		m.block(c.in, c.fr, st, c.instr, "wait", nil, false)
	case c.name == "time.Sleep":
		m.block(c.in, c.fr, st, c.instr, "sleep", nil, false)
	case isRead(c.name) && c.fr != nil && c.in.pr.inRepo(c.fr.fn):
		if st.d["unpolled"] != "" && c.in.rec && m.phase == "root" && c.in.curRoot.kind == "go" {
			m.check(c.in, "stops", "poll:"+c.in.pr.fname(topFn(c.fr)), false, c.in.pos(c.fr, c.instr), "reads again without looking at the stop channel")
		}
		st.d["unpolled"] = "1"
	case strings.HasSuffix(c.name, "http.Server).ListenAndServe") || strings.HasSuffix(c.name, "http.Server).Serve"):
		if id, ok := objOf(c.arg(0)); ok && c.in.rec {
			m.served[st.obj(id).site] = c.in.pos(c.fr, c.instr)
		}
		if strings.HasSuffix(c.name, ").Serve") {
			m.release(st, "socket", c.arg(1))
		}
	case strings.HasSuffix(c.name, "http.Server).Close") || strings.HasSuffix(c.name, "http.Server).Shutdown"):
		if id, ok := objOf(c.arg(0)); ok && c.in.rec {
			m.shut[st.obj(id).site] = true
		}
	case strings.HasSuffix(c.name, "Conn).Close") || strings.HasSuffix(c.name, "natsConn).Close") || strings.HasSuffix(c.name, "conn).Close"):
		m.release(st, "connection", c.arg(0))
		m.release(st, "socket", c.arg(0))
	case strings.HasSuffix(c.name, "(net.Listener).Close") || strings.HasSuffix(c.name, "Listener).Close"):
		m.release(st, "socket", c.arg(0))
	case strings.HasSuffix(c.name, "(probes.Probes).Close"):
		m.release(st, "probe listener", c.arg(0))
	case strings.HasSuffix(c.name, "log.Fatal") || strings.HasSuffix(c.name, "log.Fatalf"):
		return nil, false
	}
	return nil, false
}

func (m *lifeMod) reconnects(c *Call) (bool, string) {
	const no = "the connection gives up reconnecting to NATS after a while"
	if len(c.args) < 2 {
		return false, no
	}
	s, ok := c.arg(1).(VSlice)
	if !ok || len(s.R) != 1 {
		return false, no
	}
	forever := false
	for _, v := range c.variadic(1) {
		switch m.opts[valString(v)] {
		case "forever":
			forever = true
		case "bounded":
			forever = false
		}
		if f, ok := unwrap(v).(VFunc); ok && c.in.pr.inRepo(f.Fn) {
			forever = forever && !touchesReconnect(f.Fn)
		}
	}
	return forever, no
}

func touchesReconnect(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				n := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				if strings.Contains(n, "Reconnect") {
					return true
				}
			}
		}
	}
	return false
}

func (m *lifeMod) ready(c *Call) {
	st := c.st
	has := func(kind string) bool {
		for k := range st.g {
			if strings.HasPrefix(k, "res:"+kind+"@") || strings.HasPrefix(k, "moved:"+kind+"@") {
				return true
			}
		}
		return false
	}
	var ok bool
	what := "all its subscriptions exist"
	switch m.mode {
	case "listener":
		ok, what = has("socket") || st.d["socket"] != "", "its socket is bound"
	case "listener_http":
		ok, what = has("socket"), "its port is bound"
	case "monitor":
		ok, what = has("socket") && st.d["subscribed"] != "", "it is subscribed and its port is bound"
	default:
		ok = true
		m.limited(c.in, st, m.caller(c), c.in.pos(c.fr, c.instr))
	}
	m.check(c.in, "ready", "set:"+m.caller(c), ok, c.in.pos(c.fr, c.instr), "the component reports ready before "+what)
}

func (m *lifeMod) limited(in *Interp, st *State, by, where string) {
	m.check(in, "limit", by, st.d["unlimited"] == "", where, "a subscription is left without the configured limit on pending data")
}

func (m *lifeMod) fresh(c *Call, o *Outcome, t types.Type, site string) Val {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	id := o.st.alloc(&Obj{kind: oCell, typ: pt.Elem(), val: symVal(pt.Elem(), freshTerm(site)), site: site})
	return VPtr{Obj: id}
}

func (m *lifeMod) Post(c *Call, o *Outcome) {
	st := o.st
	if c.name == "nats.MaxReconnects" {
		k := "bounded"
		if st.num.lt(c.lin(0)) {
			k = "forever"
		}
		m.opts[valString(o.ret)] = k
		return
	}
	if c.name == "nats.NoReconnect" {
		m.opts[valString(o.ret)] = "bounded"
		return
	}
	if c.name == "probes.Listen" {
		if iv, ok := o.ret.(VIface); ok && iv.Dyn == nil && iv.T != nil {
			st.facts[nilKey(iv.T)] = false
		}
		m.hold(c.in, st, "probe listener", m.chain(c), o.ret, c.in.pos(c.fr, c.instr))
		return
	}
	kind := ""
	switch {
	case c.name == "nats.Connect":
		kind = "connection"
	case strings.HasPrefix(c.name, "net.Listen") || c.name == "(*net.ListenConfig).Listen":
		kind = "socket"
	case strings.HasSuffix(c.name, ").Subscribe") || strings.HasSuffix(c.name, ").QueueSubscribe"):
		if c.fn != nil && c.in.pr.inRepo(c.fn) {
			return
		}
		kind = "subscription"
	case strings.HasSuffix(c.name, "Subscription).SetPendingLimits"):
		if mustNil(st, o.ret) {
			want := cfgLin(&Call{in: c.in, st: st}, m.cfg, "NATSMaxPendingSize")
			if want != nil && (eqBoth(st, want, c.lin(2))) && st.num.lt(c.lin(1)) && m.current(st, c.arg(0)) {
				delete(st.d, "unlimited")
			}
		}
		return
	default:
		return
	}
	t, ok := o.ret.(VTuple)
	if !ok || !mustNil(st, t.E[len(t.E)-1]) {
		return
	}
	by := m.caller(c)
	if kind == "subscription" {
		m.check(c.in, "ready", "subscribe:"+by, st.d["ready"] == "", c.in.pos(c.fr, c.instr), "the component subscribes after it reported ready")
		if m.mode != "monitor" {
			m.limited(c.in, st, by, c.in.pos(c.fr, c.instr))
			st.d["unlimited"] = "1"
		}
		st.d["subscribed"] = "1"
	}
	if kind == "socket" {
		st.d["socket"] = "1"
	}
	rt := c.resType(0)
	v := m.fresh(c, o, rt, kind+"@"+by)
	if v == nil {
		v = t.E[0]
	} else {
		o.ret = VTuple{append([]Val{v}, t.E[1:]...)}
	}
	m.hold(c.in, st, kind, m.chain(c), v, c.in.pos(c.fr, c.instr))
}

func (m *lifeMod) current(st *State, v Val) bool {
	for k, r := range st.g {
		if strings.HasPrefix(k, "res:subscription@") && sameRes(r, v) {
			return true
		}
	}
	return false
}

func chanSite(st *State, v Val) string {
	if id, ok := objOf(v); ok && st.hasObj(id) {
		return st.obj(id).site
	}
	return ""
}

// Send is also told about channels which are closed.
func (m *lifeMod) Send(in *Interp, fr *Frame, st *State, ch, v Val, ins ssa.Instruction) {
	if v != nil {
		if send, ok := ins.(*ssa.Send); ok && in.rec && m.phase == "root" && in.curRoot.kind == "go" {
			m.sends = append(m.sends, lifeEvent{root: m.where(in), key: "send:" + in.pr.fname(fr.fn), where: in.pos(fr, send), sites: []string{chanSite(st, ch)}})
		}
		return
	}
	if in.rec {
		k := chanSite(st, ch)
		if m.closed[k] == nil {
			m.closed[k] = map[string]bool{}
		}
		m.closed[k][m.where(in)] = true
	}
	if m.phase == "stop" {
		m.check(in, "ready", "stop", st.d["ready"] == "", in.pos(fr, ins), "the component still reports ready while it stops")
	}
	id, ok := objOf(ch)
	if !ok {
		return
	}
	for k, r := range st.g {
		if strings.HasPrefix(k, "res:goroutine@") && heapReach(st, r).objs[id] {
			delete(st.g, k)
			st.d["signalled"] = "1"
		}
	}
}

func (m *lifeMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if m.phase == "root" {
		if s := chanSite(st, ch); s != "" && isEmptyStruct(t) {
			st.d["after"] = s
		}
	}
	return nil
}

// where names the entry point which is interpreted.
func (m *lifeMod) where(in *Interp) string {
	if m.phase == "root" && in.curRoot != nil {
		return in.curRoot.label(in)
	}
	return m.phase
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (m *lifeMod) block(in *Interp, fr *Frame, st *State, ins ssa.Instruction, what string, sites []string, wakes bool) {
	if !in.rec || m.phase != "root" || in.curRoot.kind != "go" {
		return
	}
	e := lifeEvent{root: m.where(in), key: what + ":" + in.pr.fname(fr.fn), where: in.pos(fr, ins), sites: sites}
	if !wakes {
		e.sites = []string{"*"}
	}
	if s := st.d["after"]; s != "" {
		e.after = []string{s}
	}
	m.events = append(m.events, e)
}

func (m *lifeMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	st := p.st
	switch x := ins.(type) {
	case *ssa.Go:
		for k := range st.g {
			if strings.HasPrefix(k, "moved:") {
				delete(st.g, k)
			}
		}
		var vals []Val
		if !x.Call.IsInvoke() {
			vals = append(vals, in.get(p, x.Call.Value))
		} else {
			vals = append(vals, in.get(p, x.Call.Value))
		}
		for _, a := range x.Call.Args {
			vals = append(vals, in.get(p, a))
		}
		// resources only the goroutine knows now belong to it
		mine := heapReach(st, vals...)
		var comps []Val
		for id, o := range st.heap {
			if o.kind == oCell && m.comp != nil && types.Identical(o.typ, m.comp) {
				comps = append(comps, VPtr{Obj: id})
			}
		}
		theirs := heapReach(st, comps...)
		for k, r := range st.g {
			if id, ok := objOf(r); ok && strings.HasPrefix(k, "res:") && mine.objs[id] && !theirs.objs[id] {
				st.g["moved:"+strings.TrimPrefix(k, "res:")] = r
				delete(st.g, k)
			}
		}
		if m.phase != "root" || !isServe(x) {
			st.g["running"] = VInt{m.running(st).addC(-1)}
			st.g["res:goroutine@"+in.pr.fname(fr.fn)+"#"+goName(in, x)] = VTuple{vals}
		}
		if in.rec {
			m.c.inst("goroutines " + m.mode)
		}
	case *ssa.Select:
		var sites []string
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				if k := chanSite(st, in.get(p, s.Chan)); k != "" {
					sites = append(sites, k)
				}
			}
		}
		if len(sites) > 0 {
			delete(st.d, "unpolled")
		}
		if x.Blocking {
			m.block(in, fr, st, ins, "select", sites, true)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			m.block(in, fr, st, ins, "receive", []string{chanSite(st, in.get(p, x.X))}, true)
		}
	case *ssa.Return:
		if fr.parent != nil {
			return
		}
		where := in.pos(fr, ins)
		switch m.phase {
		case "start":
			if len(x.Results) == 0 || mustNil(st, in.get(p, x.Results[len(x.Results)-1])) {
				m.limited(in, st, in.pr.fname(fr.fn), where)
				return
			}
			m.left(in, st, "failed start", where)
			m.check(in, "ready", "failed start", st.d["ready"] == "", where, "the component reports ready although it failed to start")
		case "stop":
			m.left(in, st, "stop", where)
		case "root":
			if in.curRoot.kind == "go" {
				m.left(in, st, in.pr.fname(fr.fn), where)
				if len(m.served) == 0 || !callsNamed(fr.fn, 3, func(n string) bool { return strings.HasSuffix(n, "Serve") }) {
					m.check(in, "stops", m.where(in)+":signals", st.d["done"] != "", where, "ends without signalling it")
				}
			}
		}
	}
}

// running is the number of goroutines which were announced but not started.
func (m *lifeMod) running(st *State) *Lin {
	if v, ok := st.g["running"].(VInt); ok {
		return v.L
	}
	return linC(0)
}

func (m *lifeMod) counted(in *Interp, st *State, where string) {
	m.check(in, "stops", m.where(in)+":counted", eqBoth(st, m.running(st), linC(0)), where, "the number of goroutines waited for differs from the number started")
}

func wgSite(st *State, v Val) string {
	p, ok := unwrap(v).(VPtr)
	if !ok || !st.hasObj(p.Obj) {
		return "?"
	}
	return st.obj(p.Obj).site + fmt.Sprint(p.Path)
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

func goName(in *Interp, x *ssa.Go) string {
	if f := x.Call.StaticCallee(); f != nil {
		return in.pr.fname(f)
	}
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		return in.pr.fname(mc.Fn.(*ssa.Function))
	}
	return "?"
}

// isServe tells goroutines which only run an HTTP server.
func isServe(x *ssa.Go) bool {
	var f *ssa.Function
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		f = mc.Fn.(*ssa.Function)
	} else {
		f = x.Call.StaticCallee()
	}
	return f != nil && callsNamed(f, 3, func(n string) bool { return strings.HasSuffix(n, "Serve") })
}

func callsNamed(f *ssa.Function, depth int, is func(string) bool) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					if is(g.Name()) || depth > 0 && g.Pkg == f.Pkg && callsNamed(g, depth-1, is) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *lifeMod) left(in *Interp, st *State, when, where string) {
	bad := m.held(st)
	kind := "release"
	if m.phase == "stop" || m.phase == "root" {
		kind = "stops"
	}
	for _, k := range bad {
		what := strings.Split(k, "@")[0]
		msg := "the " + what + " opened in " + strings.TrimPrefix(k, what+"@") + " is not closed"
		if what == "goroutine" {
			msg = "the goroutine started in " + strings.TrimPrefix(k, what+"@") + " is not told to stop"
		}
		m.check(in, kind, when+":"+k, false, where, when+": "+msg)
	}
	m.check(in, kind, when+":waited", st.d["signalled"] == "", where, when+": goroutines are told to stop but not waited for")
	if len(bad) == 0 {
		m.check(in, kind, when, true, where, "")
	}
}

func runLife(c *Ctx, kinds ...string) {
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	for _, cp := range componentList {
		m := &lifeMod{c: c, mode: cp.mode, opts: map[string]string{}, closed: map[string]map[string]bool{}, waited: map[string]bool{}, dones: map[string]string{}, served: map[string]string{}, shut: map[string]bool{}, want: want}
		in := newInterp(c.pr, m)
		apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With", "batch.", "(*batch.", "batchsplitter.",
			"(*downsampler.", "downsampler.newAssigner", "prometheus.", "(*prometheus.")
		useContracts(in)
		hide := in.opaque
		in.opaque = func(k *Call) bool {
			return hide(k) && !strings.HasPrefix(k.name, "(*downsampler.Downsampler)") && !strings.HasPrefix(k.name, "(*batch.Batch).Read")
		}
		st := in.globalsState()
		f := c.pr.fn(cp.start)
		rt := f.Signature.Results().At(0).Type().(*types.Pointer)
		m.comp = rt.Elem()
		stop := c.pr.prog.MethodValue(c.pr.prog.MethodSets.MethodSet(rt).Lookup(f.Pkg.Pkg, "Stop"))
		in.starting = true
		for _, o := range in.validConfigs(st, cp.mode) {
			m.cfg = o.ret.(VPtr)
			if l := cfgLin(&Call{in: in, st: o.st}, m.cfg, "NATSMaxPendingSize"); l != nil {
				o.st.num = o.st.num.addCon(l.addC(-(1 << 62)), false)
			}
			m.phase = "start"
			outs := in.runEntry(f, []Val{o.ret}, nil, o.st)
			good := 0
			for _, r := range outs {
				t := r.ret.(VTuple)
				if !mustNil(r.st, t.E[1]) {
					continue
				}
				good++
				m.phase = "stop"
				in.runEntry(stop, []Val{t.E[0]}, nil, r.st)
			}
			if good == 0 {
				panic(undecided{cp.start + " never succeeds"})
			}
		}
		in.starting = false
		if want["stops"] || want["ready"] {
			m.phase = "root"
			in.runRoots(func(r *Root, st *State) *State {
				for k, v := range st.g {
					if strings.HasPrefix(k, "res:") {
						delete(st.g, k)
					}
					if strings.HasPrefix(k, "moved:") {
						delete(st.g, k)
						if r.kind == "go" {
							st.g["res:"+strings.TrimPrefix(k, "moved:")] = v
						}
					}
				}
				delete(st.d, "after")
				delete(st.g, "running")
				delete(st.d, "signalled")
				return st
			})
		}
		if want["stops"] {
			m.finish()
		}
		c.count["components"]++
		c.count["concurrent entry points"] += len(in.roots)
		c.absorb(in)
	}
}

func (m *lifeMod) finish() {
	for _, e := range m.events {
		ok := false
		for _, s := range e.sites {
			ok = ok || s == "*" || m.closed[s] != nil
		}
		m.c.oblige("stops:"+m.mode+":wakes:"+e.key, ok, e.where, "blocks without being woken up when the component stops")
		m.c.inst("blocking operations " + m.mode)
		for _, s := range e.after {
			if e.sites[0] == "*" {
				continue // waits for others which are told to stop
			}
			m.c.oblige("stops:"+m.mode+":after:"+e.key, m.closed[s] == nil, e.where, "blocks again after being told to stop")
		}
	}
	// A blocking send needs a receiver which goes on receiving until the sender
	// tells it to stop.
	for _, e := range m.sends {
		ok := false
		for _, r := range m.events {
			if r.root == e.root || !contains(r.sites, e.sites[0]) {
				continue
			}
			ok = true
			for _, s := range r.sites {
				for by := range m.closed[s] {
					if by != e.root {
						m.c.oblige("stops:"+m.mode+":"+e.key, false, e.where, "blocks for ever once the receiver has stopped")
					}
				}
			}
		}
		m.c.oblige("stops:"+m.mode+":"+e.key, ok, e.where, "nothing receives what is sent here")
	}
	for s, where := range m.dones {
		m.c.oblige("stops:"+m.mode+":waits:"+s, m.waited[s], where, "nobody waits for this goroutine to end")
	}
	for s, where := range m.served {
		m.c.oblige("stops:"+m.mode+":server:"+s, m.shut[s], where, "the HTTP server is never closed")
	}
}

func init() {
	rule := "abstract interpretation of every start function, Stop method and goroutine with typestate of connections, sockets, probe listeners, subscriptions and goroutines"
	register(&Property{id: "C34", level: "other", rule: rule, run: func(c *Ctx) {
		runLife(c, "release")
		for _, cp := range componentList {
			c.need("release "+cp.mode, 1)
		}
	}})
	register(&Property{id: "C35", level: "other", rule: rule, run: func(c *Ctx) {
		runLife(c, "stops")
		for _, cp := range componentList {
			c.need("stops "+cp.mode, 1)
		}
	}})
	register(&Property{id: "C36", level: "other", rule: rule, run: func(c *Ctx) {
		runLife(c, "ready")
		for _, cp := range componentList {
			c.need("ready "+cp.mode, 1)
		}
	}})
	register(&Property{id: "C37", level: "other", rule: rule, run: func(c *Ctx) {
		runLife(c, "limit")
		for _, m := range []string{"filter", "downsampler", "writer"} {
			c.need("limit "+m, 2)
		}
	}})
	register(&Property{id: "C38", level: "other", rule: rule, run: func(c *Ctx) {
		runLife(c, "reconnect")
		for _, cp := range componentList {
			c.need("reconnect "+cp.mode, 1)
		}
	}})
}

// label names a root after the function it runs.
func (r *Root) label(in *Interp) string {
	if f, ok := r.states[0].env[rootFnKey].(VFunc); ok {
		return in.pr.fname(f.Fn)
	}
	return r.kind
}
