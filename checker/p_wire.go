package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What goes through NATS: C24 (subjects), C28 (counters in use exist) and C45
// (statistics are published).

// origin says where a value comes from, so that values which belong together
// can be told.
type origin struct {
	kind string // subject, counter, rule, dropped
	idx  *Lin
	obj  ObjID
}

type wireMod struct {
	BaseModule
	c      *Ctx
	mode   string
	cfg    VPtr
	want   string // C24, C28, C45
	from   map[string]origin
	labels map[string][]label
	feeds  map[ObjID][]*Term // channel -> subject whose messages are sent to it
	names  map[string]bool
	used   map[string]string
}

type label struct {
	name  string
	value Val
}

func (m *wireMod) check(c *Call, key string, ok bool, msg string) {
	m.checkAt(c.in, key, ok, c.in.pos(c.fr, c.instr), msg)
}

func (m *wireMod) checkAt(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key+":"+m.mode, ok, where, msg)
		m.c.inst(key + " " + m.mode)
	}
}

// subjectIdx finds which configured input subject a value is.
func (m *wireMod) subjectIdx(st *State, v Val) *Lin {
	s, ok := unwrap(v).(VStr)
	if !ok || s.T == nil {
		return nil
	}
	o, ok := m.from[valString(s)]
	if !ok || o.kind != "subject" {
		return nil
	}
	return o.idx
}

func (m *wireMod) nSubjects(st *State) *Lin {
	if !st.hasObj(m.cfg.Obj) {
		return nil
	}
	o := st.obj(m.cfg.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	if s, ok := getPath(v, []int{fieldIdx(o.typ, "NATSSubject")}).(VSlice); ok {
		return s.Len
	}
	return nil
}

func ghostLin(st *State, name string) *Lin {
	if v, ok := st.g[name].(VInt); ok {
		return v.L
	}
	return linC(0)
}

// Load notes where subjects, counters and subscriptions come from.
func (m *wireMod) Load(in *Interp, fr *Frame, st *State, p VPtr, v Val, ins ssa.Instruction) {
	if !st.hasObj(p.Obj) {
		return
	}
	o := st.obj(p.Obj)
	if p.Idx != nil && len(p.Path) == 0 && o.kind == oRegion {
		kind := ""
		switch {
		case o.sym != nil && o.sym.op == ".NATSSubject":
			kind = "subject"
		case inSlice(st, "counter", p.Obj):
			kind = "counter"
		case inSlice(st, "rule", p.Obj):
			kind = "rule"
		}
		if kind != "" {
			if n, ok := v.(VInt); ok {
				// counters never get near 2^62
				st.num = st.num.addCon(n.L.addC(-1<<62), false)
			}
			m.from[valString(v)] = origin{kind: kind, idx: p.Idx}
		}
	}
	if q, ok := v.(VPtr); ok && p.Idx != nil && st.hasObj(q.Obj) && typeName(st.obj(q.Obj).typ) == "nats.Subscription" {
		m.from[valString(v)] = origin{kind: "subscription", obj: q.Obj, idx: p.Idx}
	}
	if typeName(o.typ) == "nats.Subscription" && len(p.Path) == 1 && p.Path[0] == fieldIdx(o.typ, "Subject") {
		m.from[valString(v)] = origin{kind: "dropped", obj: p.Obj}
	}
}

// inSlice tells whether memory belongs to a slice which was obtained earlier.
func inSlice(st *State, name string, id ObjID) bool {
	s, ok := st.g[name].(VSlice)
	return ok && len(s.R) == 1 && s.R[0] == id
}

func (m *wireMod) paired(st *State, a, b Val) bool {
	x, ok := m.from[valString(a)]
	y, ok2 := m.from[valString(b)]
	if !ok || !ok2 {
		return false
	}
	if x.kind == "dropped" || y.kind == "dropped" {
		return x.kind == y.kind && x.obj == y.obj
	}
	return (x.kind == "counter") != (y.kind == "counter") && eqBoth(st, x.idx, y.idx)
}

func (m *wireMod) Pre(c *Call) ([]Outcome, bool) {
	switch m.want {
	case "C24":
		m.subjects(c)
	case "C28":
		m.counters(c)
	case "C45":
		return m.statistics(c)
	}
	return nil, false
}

// ---------------------------------------------------------------- C24

func (m *wireMod) subjects(c *Call) {
	if c.fn != nil && c.in.pr.inRepo(c.fn) {
		if strings.HasSuffix(c.name, ").SetReady") && isTrue(c.arg(1)) {
			m.ready(c)
		}
		return
	}
	switch m.natsOp(c) {
	case "SetReady":
		if isTrue(c.arg(1)) {
			m.ready(c)
		}
	case "Subscribe":
		m.subscribe(c, nil, c.arg(2))
	case "QueueSubscribe":
		m.subscribe(c, c.arg(2), c.arg(3))
	case "ChanSubscribe", "ChanQueueSubscribe", "SubscribeSync", "QueueSubscribeSync", "QueueSubscribeSyncWithChan":
		panic(undecided{"subscription with " + c.name})
	case "Publish":
		m.publish(c)
	case "PublishMsg", "PublishRequest", "Request":
		panic(undecided{"data handed over with " + c.name})
	}
}

func (m *wireMod) natsOp(c *Call) string {
	i := strings.LastIndex(c.name, ").")
	if i < 0 {
		return ""
	}
	op := c.name[i+2:]
	if op == "SetReady" || strings.HasPrefix(c.name, "(*nats.Conn)") || strings.HasSuffix(c.name[:i], ".natsConn") {
		return op
	}
	return ""
}

func (m *wireMod) ready(c *Call) {
	switch m.mode {
	case "filter", "downsampler", "writer":
		n := m.nSubjects(c.st)
		m.check(c, "all subjects", n != nil && c.st.num.le(n.sub(ghostLin(c.st, "subs"))), "the component is ready without being subscribed to every configured subject")
	}
}

func (m *wireMod) subscribe(c *Call, group, handler Val) {
	st := c.st
	if m.mode == "monitor" {
		m.check(c, "subscription", isField(c.arg(1), "NATSSubjectMonitor") && group == nil, "the monitor subscribes to something else than the subject of the metrics")
		return
	}
	idx := m.subjectIdx(st, c.arg(1))
	next := ghostLin(st, "subs")
	m.check(c, "subscription", idx != nil && eqBoth(st, idx, next), "this is not the next of the configured subjects")
	st.g["subs"] = VInt{next.addC(1)}
	if m.mode == "writer" {
		ok := false
		q := (&writerMod{cfg: m.cfg}).strField(st, "QueueGroup")
		if group != nil {
			ok = isField(group, "QueueGroup")
		} else if q.Len != nil {
			ok = st.num.eq0(q.Len)
		}
		m.check(c, "queue group", ok, "a writer with a configured queue group subscribes without it, or with another one")
	}
	if m.mode == "downsampler" {
		// messages of one subject go to a channel of their own
		ch, n := m.channels(st, handler)
		m.check(c, "own channel", n == 1 && st.d["newchan"] == st.obj(ch).site, "messages received on different subjects get mixed")
		delete(st.d, "newchan")
		if s, ok := unwrap(c.arg(1)).(VStr); ok && idx != nil && n == 1 && c.in.rec {
			m.feeds[ch] = append(m.feeds[ch], s.T)
		}
	}
}

// channels finds the channels of data a function value refers to.
func (m *wireMod) channels(st *State, v Val) (ObjID, int) {
	var found ObjID
	n := 0
	r := newReach()
	if f, ok := unwrap(v).(VFunc); ok {
		for _, b := range f.Bind {
			r.val(b)
		}
	} else {
		r.val(v)
	}
	r.close(st)
	var ids []ObjID
	for id := range r.objs {
		ids = append(ids, id)
	}
	sortObjs(ids)
	for _, id := range ids {
		if st.hasObj(id) && st.obj(id).kind == oChan && isDataChan(st.obj(id).typ) {
			found = id
			n++
		}
	}
	return found, n
}

func isDataChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	e := ch.Elem()
	if isByteSlice(e) {
		return true
	}
	p, ok := e.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == "nats.Msg"
}

func (m *wireMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if x, ok := ins.(*ssa.MakeChan); ok && m.want == "C24" && m.mode == "downsampler" && isDataChan(x.Type()) {
		p.st.d["newchan"] = in.pr.fname(fr.fn) + ":" + x.Name()
	}
	if m.want == "C45" {
		if x, ok := ins.(*ssa.Select); ok && x.Blocking {
			m.waits(in, fr, p.st, ins)
		}
		if x, ok := ins.(*ssa.UnOp); ok && x.Op.String() == "<-" {
			m.waits(in, fr, p.st, ins)
		}
	}
}

func (m *wireMod) publish(c *Call) {
	st := c.st
	subj := c.arg(1)
	s := c.slice(2)
	stat := strings.HasPrefix(termOp(s.T), "ext:stats.") || strings.HasPrefix(termOp(s.T), "stats.")
	_, held := batchOf(c, s)
	if isField(subj, "NATSSubjectMonitor") {
		m.check(c, "metrics only", !held && !m.measured(st, s), "measurements are published to the subject of the metrics")
		if stat {
			m.check(c, "metrics", true, "")
		}
		return
	}
	m.check(c, "no metrics", !stat, "metrics are published to another subject than the one of the metrics")
	switch m.mode {
	case "listener", "listener_http":
		idx := m.subjectIdx(st, subj)
		m.check(c, "output", idx != nil && st.num.eq0(idx), "what is received is published to another subject than the configured one")
	case "filter":
		// C11 decides which output goes to which subject
		m.check(c, "output", true, "")
	case "downsampler":
		t, ok := unwrap(subj).(VStr)
		good := false
		if ok && t.T != nil && t.T.op == "+" && len(t.T.args) == 2 && t.T.args[1] != nil && t.T.args[1].op == ".DownsampleSuffix" {
			for ch, ts := range m.feeds {
				if m.receives(c.in, ch) {
					good = true
					for _, x := range ts {
						good = good && x == t.T.args[0]
					}
				}
			}
		}
		m.check(c, "output", good, "samples of a subject are published to something else than that subject with the suffix")
	default:
		m.check(c, "output", false, "measurements are published")
	}
}

// receives tells whether the concurrent part being interpreted was given a
// channel.
func (m *wireMod) receives(in *Interp, ch ObjID) bool {
	if in.curPath == nil {
		return false
	}
	f := in.curPath.env[rootFnKey].(VFunc)
	for _, a := range append(append([]Val(nil), in.curPath.env[rootArgKey].(VTuple).E...), f.Bind...) {
		if p, ok := unwrap(a).(VPtr); ok && p.Obj == ch {
			return true
		}
	}
	return false
}

func (m *wireMod) measured(st *State, s VSlice) bool {
	b, ok := st.g["bkt"].(VSlice)
	return ok && len(b.R) == 1 && len(s.R) == 1 && b.R[0] == s.R[0]
}

func termOp(t *Term) string {
	if t == nil {
		return ""
	}
	return t.op
}

// ---------------------------------------------------------------- C28

func (m *wireMod) counters(c *Call) {
	switch c.name {
	case "stats.New":
		vs := c.variadic(0)
		m.check(c, "registered", len(vs) > 0, "the names of the counters are not known")
		for _, v := range vs {
			s, ok := unwrap(v).(VStr)
			m.check(c, "registered", ok && s.Const != nil, "the name of a counter is not a constant")
			if ok && s.Const != nil {
				m.names[*s.Const] = true
			}
		}
	case "(*stats.Stats).Inc", "(*stats.Stats).Get", "(*stats.Stats).Max":
		s, ok := c.constStr(1)
		if !c.in.rec {
			return
		}
		m.check(c, "counter", ok, "the name of the counter is not a constant")
		if ok {
			m.used[s] = c.in.pos(c.fr, c.instr)
		}
	}
}

// ---------------------------------------------------------------- C45

func (m *wireMod) statistics(c *Call) ([]Outcome, bool) {
	st := c.st
	switch c.name {
	case "stats.NewLabels":
		s, ok := c.constStr(0)
		want := m.mode
		if want == "listener_http" {
			want = "listener"
		}
		m.check(c, "labels", ok && s == want && valString(c.arg(1)) == valString((&writerMod{cfg: m.cfg}).strField(st, "Name")), "the metrics are labelled with another component or name")
		out := c.outs(c.fresh("labels"))
		m.labels[valString(out[0].ret)] = []label{}
		return out, true
	case "(prometheus.Labels).With":
		old, ok := m.labels[valString(c.arg(0))]
		if !ok {
			return nil, false
		}
		n, _ := c.constStr(1)
		out := c.outs(c.fresh("labels"))
		m.labels[valString(out[0].ret)] = append(append([]label(nil), old...), label{n, c.arg(2)})
		return out, true
	case "time.Sleep":
		m.waits(c.in, c.fr, st, c.instr)
	case "(*stats.AnonStats).Max":
		o := m.from[valString(c.arg(2))]
		m.check(c, "right counter", o.kind == "dropped" && o.idx != nil && eqBoth(st, o.idx, c.lin(1)), "the number of dropped messages of one subscription is stored for another one")
	case "stats.SnapshotToPrometheus":
		a, ok := sliceOf(c.arg(0))
		b, ok2 := st.g["snap"].(VSlice)
		_, ok3 := m.labels[valString(c.arg(2))]
		m.check(c, "snapshot", ok && ok2 && sameSlice(st, a, b), "what is published is not a snapshot of the counters taken since it last waited")
		m.check(c, "labelled", ok3, "the labels of the metrics are not known")
	case "stats.CounterToPrometheus":
		ls := m.labels[valString(c.arg(3))]
		_, named := c.constStr(0)
		ok := len(ls) > 0 && m.paired(st, c.arg(1), ls[len(ls)-1].value)
		m.check(c, "right label", ok && named, "the value published does not belong to the subject in its label")
		if o := m.from[valString(c.arg(1))]; ok && o.kind == "counter" {
			m.check(c, "every counter", eqBoth(st, o.idx, ghostLin(st, "labelled")), "this is not the next counter to be published")
		}
	}
	if c.fn != nil && c.in.pr.inRepo(c.fn) {
		return nil, false
	}
	if m.natsOp(c) == "Publish" && m.statistician(c.in) && isField(c.arg(1), "NATSSubjectMonitor") {
		s := c.slice(2)
		if t, ok := st.g["text"].(VSlice); ok && sameSlice(st, t, s) {
			st.d["published"] = "1"
			m.check(c, "published", true, "")
		}
		if t, ok := st.g["line"].(VSlice); ok && sameSlice(st, t, s) {
			st.g["labelled"] = VInt{ghostLin(st, "labelled").addC(1)}
			delete(st.g, "line")
			delete(st.d, "due")
			m.check(c, "counter published", true, "")
		}
	}
	return nil, false
}

func (m *wireMod) Post(c *Call, o *Outcome) {
	st := o.st
	if m.want == "C24" && c.name == "(*downsampler.assigner).Bytes" {
		if s, ok := sliceOf(o.ret); ok {
			st.g["bkt"] = s
		}
	}
	if m.want != "C45" {
		return
	}
	switch c.name {
	case "(*stats.Stats).Snapshot":
		if s, ok := sliceOf(o.ret); ok {
			st.g["snap"] = s
		}
	case "(*stats.AnonStats).Snapshot":
		if s, ok := sliceOf(o.ret); ok && len(s.R) == 1 {
			st.g["counter"] = s
		}
	case "(*filter.RuleSet).Subjects":
		if s, ok := sliceOf(o.ret); ok && len(s.R) == 1 {
			st.g["rule"] = s
		}
	case "stats.SnapshotToPrometheus":
		if s, ok := sliceOf(o.ret); ok {
			st.g["text"] = s
		}
	case "stats.CounterToPrometheus":
		if s, ok := sliceOf(o.ret); ok {
			st.g["line"] = s
		}
	case "(*nats.Subscription).Dropped":
		id, ok := objOf(c.arg(0))
		n, ok2 := retN(o.ret, 0).(VInt)
		if ok && ok2 && mustNil(st, retN(o.ret, 1)) {
			st.num = st.num.addCon(n.L.neg(), false)
			m.from[valString(n)] = origin{kind: "dropped", obj: id, idx: m.from[valString(c.arg(0))].idx}
			if m.mode == "writer" && m.statistician(c.in) {
				m.checkAt(c.in, "every subscription", st.d["due"] == "", c.in.pos(c.fr, c.instr), "a number of dropped messages is not published")
				st.d["due"] = "1"
			}
		}
	}
}

// statistician tells whether the part being interpreted publishes statistics.
func (m *wireMod) statistician(in *Interp) bool {
	if in.curRoot == nil || in.curRoot.kind != "go" {
		return false
	}
	f := in.curRoot.states[0].env[rootFnKey].(VFunc)
	return reaches(in.pr, f.Fn, func(n string) bool { return n == "(*stats.Stats).Snapshot" })
}

func (m *wireMod) waits(in *Interp, fr *Frame, st *State, ins ssa.Instruction) {
	if !m.statistician(in) || !in.pr.inRepo(fr.fn) {
		return
	}
	where := in.pos(fr, ins)
	if st.d["waited"] != "" || st.d["published"] != "" {
		m.checkAt(in, "every round", st.d["published"] == "1", where, "waits without having published the statistics since the last time")
		m.checkAt(in, "every subscription", st.d["due"] == "", where, "a number of dropped messages is not published")
		if m.mode == "downsampler" || m.mode == "filter" {
			want := m.nSubjects(st)
			if s, ok := st.g["rule"].(VSlice); ok && m.mode == "filter" {
				want = s.Len
			} else if m.mode == "filter" {
				want = nil
			}
			m.checkAt(in, "all counters", want != nil && st.num.le(want.sub(ghostLin(st, "labelled"))), where, "not every counter with a label has been published")
		}
	}
	st.d["waited"] = "1"
	delete(st.d, "published")
	for _, k := range []string{"snap", "text", "line", "labelled", "counter", "rule"} {
		delete(st.g, k)
	}
}

func wireComponents(c *Ctx, want string, done func(m *wireMod)) {
	var ms []*wireMod
	runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
		m := &wireMod{c: c, mode: cp.mode, want: want, from: map[string]origin{}, labels: map[string][]label{}, feeds: map[ObjID][]*Term{}, names: map[string]bool{}, used: map[string]string{}}
		in := newInterp(c.pr, m)
		in.onConfig = func(p VPtr) { m.cfg = p }
		apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
		useContracts(in)
		ms = append(ms, m)
		return in, nil
	})
	for _, m := range ms {
		if done != nil {
			done(m)
		}
	}
}

func init() {
	register(&Property{id: "C24", level: "other", rule: "the symbolic subject of every subscription and publication is the configured one", run: func(c *Ctx) {
		wireComponents(c, "C24", nil)
		for _, k := range []string{"subscription filter", "subscription downsampler", "subscription writer", "subscription monitor", "output listener", "output listener_http", "output downsampler", "all subjects filter", "all subjects downsampler", "all subjects writer", "queue group writer", "own channel downsampler"} {
			c.need(k, 1)
		}
	}})
	register(&Property{id: "C28", level: "other", rule: "the name of every counter used is a constant which is registered", run: func(c *Ctx) {
		wireComponents(c, "C28", func(m *wireMod) {
			var us []string
			for n := range m.used {
				us = append(us, n)
			}
			sort.Strings(us)
			for _, n := range us {
				m.c.oblige("counter:"+m.mode+":"+n, m.names[n], m.used[n], "the counter "+n+" does not exist")
			}
			m.c.count["counters used by "+m.mode] += len(us)
		})
		for _, md := range []string{"listener", "listener_http", "filter", "downsampler", "writer"} {
			c.need("counters used by "+md, 2)
			c.need("registered "+md, 1)
		}
	}})
	register(&Property{id: "C45", level: "other", rule: "between any two waits of a statistician every counter is read, formatted with the right labels and published", run: func(c *Ctx) {
		wireComponents(c, "C45", nil)
		for _, md := range []string{"listener", "listener_http", "filter", "downsampler", "writer"} {
			c.need("every round "+md, 1)
			c.need("labels "+md, 1)
			c.need("published "+md, 1)
		}
		c.need("right counter downsampler", 1)
		for _, md := range []string{"filter", "downsampler", "writer"} {
			c.need("right label "+md, 1)
			c.need("counter published "+md, 1)
		}
	}})
}
