package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The counters which have to agree with what a component does. For each of
// them st.d["b:name"] is the balance between increments and the events they
// count; it has to be even again whenever the component waits, or is done.

type countMod struct {
	BaseModule
	c      *Ctx
	id     string
	mode   string
	cfg    VPtr
	before map[*Root]map[ObjID]bool // objects a goroutine did not create itself
}

func (m *countMod) active(in *Interp) bool { return in.curRoot != nil }

func (m *countMod) judge(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(m.id+":"+m.mode+":"+key, ok, where, msg)
		m.c.inst(m.mode + " " + key)
	}
}

func bal(st *State, k string) int {
	n, _ := strconv.Atoi(st.d["b:"+k])
	return n
}

func setBal(st *State, k string, n int) {
	if n == 0 {
		delete(st.d, "b:"+k)
		return
	}
	st.d["b:"+k] = strconv.Itoa(n)
}

// event is something a counter has to be incremented for.
func (m *countMod) event(in *Interp, st *State, k, where string) {
	n := bal(st, k) - 1
	if n < -1 {
		m.judge(in, k, false, where, "the counter "+k+" was not incremented for what it counts")
		n = -1
	}
	setBal(st, k, n)
	if in.rec {
		m.c.inst(m.mode + " event " + k)
	}
}

func (m *countMod) inc(in *Interp, st *State, k, where string, early bool) {
	n := bal(st, k) + 1
	if n > 1 || n == 1 && !early {
		m.judge(in, k, false, where, "the counter "+k+" is incremented without anything it counts")
		n = 0
	}
	m.judge(in, k, true, where, "")
	setBal(st, k, n)
}

// even is called where all counters have to be up to date.
func (m *countMod) even(in *Interp, st *State, where string) {
	var ks []string
	for k := range st.d {
		if strings.HasPrefix(k, "b:") {
			ks = append(ks, k[2:])
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		msg := "the counter " + k + " was not incremented for what it counts"
		if bal(st, k) > 0 {
			msg = "the counter " + k + " was incremented without anything it counts"
		}
		m.judge(in, k, false, where, msg)
		setBal(st, k, 0)
	}
	if n, ok := st.g["packet"].(VInt); ok {
		m.judge(in, "received", st.num.le(n.L), where, "a packet is not counted as received")
		delete(st.g, "packet")
	}
}

func (m *countMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	if !m.active(in) {
		return nil, false
	}
	where := in.pos(c.fr, c.instr)
	switch c.name {
	case "(*stats.Stats).Inc":
		n, ok := c.constStr(1)
		if !ok {
			panic(undecided{"the counter incremented is not known"})
		}
		m.counted(c, n, where)
		return nil, false
	case "(*batch.Batch).Reset":
		if m.mode != "writer" && st.d["published"] != "" {
			delete(st.d, "published")
			m.event(in, st, "sent", where)
		}
		return nil, false
	}
	if m.mode == "writer" {
		switch c.name {
		case "net/http.NewRequest":
			if retryRole(in) {
				return nil, false
			}
			m.event(in, st, "write_requests", where)
			outs := c.okOrErr("request")
			for i := 1; i < len(outs); i++ {
				m.event(in, outs[i].st, "failed_writes", where)
			}
			return outs, true
		case "(*net/http.Client).Do", "(*net/http.Client).Post", "net/http.Post":
			if retryRole(in) {
				return nil, false
			}
			if c.name != "(*net/http.Client).Do" {
				m.event(in, st, "write_requests", where)
			}
			outs := (&writerMod{}).answers(c)
			for _, o := range outs {
				if o.st.d["class"] != "2xx" {
					m.event(in, o.st, "failed_writes", where)
				}
				delete(o.st.d, "class")
				delete(o.st.g, "body")
			}
			return outs, true
		}
		return nil, false
	}
	if s, ok := dataOut(c); ok {
		m.even1(in, st, "failed_nats_publish", where)
		if !st.num.le(s.Len) {
			st.d["published"] = "1"
		}
		outs := c.okOrErr("publish")
		for i := range outs {
			if !mustNil(outs[i].st, outs[i].ret) {
				m.event(in, outs[i].st, "failed_nats_publish", where)
			}
		}
		return outs, true
	}
	return nil, false
}

func (m *countMod) even1(in *Interp, st *State, k, where string) {
	if bal(st, k) < 0 {
		m.judge(in, k, false, where, "the counter "+k+" was not incremented for what it counts")
		setBal(st, k, 0)
	}
}

// counted is called when a counter is incremented.
func (m *countMod) counted(c *Call, n, where string) {
	st, in := c.st, c.in
	switch {
	case n == "failed_nats_publish" && m.mode != "writer":
		m.inc(in, st, n, where, false)
	case n == "failed_writes" && m.mode == "writer" && !retryRole(in):
		m.inc(in, st, n, where, false)
	case n == "write_requests" && m.mode == "writer" && !retryRole(in):
		m.inc(in, st, n, where, true)
	case n == "sent" && (m.mode == "listener" || m.mode == "listener_http" || m.mode == "downsampler"):
		m.inc(in, st, n, where, true)
	case n == "received" && m.mode == "listener":
		p, ok := st.g["packet"].(VInt)
		m.judge(in, n, ok && st.num.lt(p.L.neg()), where, "the counter received is incremented without a packet")
		delete(st.g, "packet")
	case n == "received" && (m.mode == "writer" || m.mode == "downsampler"):
		m.inc(in, st, n, where, false)
	}
}

func retryRole(in *Interp) bool { return (&writerMod{}).role(in) == "retry" }

func (m *countMod) Post(c *Call, o *Outcome) {
	if m.mode == "listener" && isRead(c.name) && m.active(c.in) && c.fr != nil && c.in.pr.inRepo(c.fr.fn) {
		m.even(c.in, o.st, c.in.pos(c.fr, c.instr))
		if n, ok := retN(o.ret, 0).(VInt); ok {
			o.st.g["packet"] = n
			if c.in.rec {
				m.c.inst(m.mode + " event received")
			}
		}
	}
}

func (m *countMod) Recv(in *Interp, fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if !m.active(in) {
		return nil
	}
	where := in.pos(fr, ins)
	switch m.mode {
	case "downsampler":
		if isByteSlice(t) {
			m.event(in, st, "received", where)
		}
	case "writer":
		if retryRole(in) {
			return nil
		}
		if p, ok := t.(*types.Pointer); ok && typeName(p.Elem()) == "nats.Msg" {
			m.event(in, st, "received", where)
			return nil
		}
		p, ok := ch.(VPtr)
		if !ok || m.before[in.curRoot][p.Obj] {
			return nil
		}
		// the retry worker reports its requests and failures
		if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			m.event(in, st, "write_requests", where)
		} else if isErrorType(t) {
			m.event(in, st, "failed_writes", where)
		}
	}
	return nil
}

func (m *countMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if !m.active(in) {
		return
	}
	switch x := ins.(type) {
	case *ssa.Select:
		if x.Blocking {
			m.waits(in, fr, p.st, ins)
		}
	case *ssa.Return:
		if fr.parent == nil {
			m.waits(in, fr, p.st, ins)
		}
	}
}

func (m *countMod) waits(in *Interp, fr *Frame, st *State, ins ssa.Instruction) {
	where := in.pos(fr, ins)
	if m.mode == "downsampler" && st.d["published"] != "" {
		delete(st.d, "published")
		m.event(in, st, "sent", where)
	}
	m.even(in, st, where)
	delete(st.d, "published")
}

func runCount(c *Ctx, id string, modes ...string) {
	runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
		if !strings.Contains(" "+strings.Join(modes, " ")+" ", " "+cp.mode+" ") {
			return nil, nil
		}
		m := &countMod{c: c, id: id, mode: cp.mode, before: map[*Root]map[ObjID]bool{}}
		in := newInterp(c.pr, m)
		apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
		useContracts(in)
		in.onConfig = func(p VPtr) { m.cfg = p }
		return in, func(r *Root, st *State) *State {
			if m.before[r] == nil {
				m.before[r] = map[ObjID]bool{}
			}
			for id := range st.heap {
				m.before[r][id] = true
			}
			st.d, st.g = map[string]string{}, map[string]Val{}
			return st
		}
	})
}

func init() {
	register(&Property{id: "C25", level: "other", rule: "abstract interpretation of the listeners, the filter and the downsampler: failed publishes, batches sent and packets or messages received are balanced against the increments of their counters", run: func(c *Ctx) {
		runCount(c, "C25", "listener", "listener_http", "filter", "downsampler")
		for _, md := range []string{"listener", "listener_http", "filter", "downsampler"} {
			c.need(md+" event failed_nats_publish", 1)
			if md != "filter" {
				c.need(md+" event sent", 1)
			}
		}
		c.need("listener event received", 1)
		c.need("downsampler event received", 1)
	}})
	register(&Property{id: "C29", level: "other", rule: "abstract interpretation of the writer's workers: write requests, failed writes, reported retries and received messages are balanced against the increments of their counters", run: func(c *Ctx) {
		runCount(c, "C29", "writer")
		c.need("writer event write_requests", 2)
		c.need("writer event failed_writes", 2)
		c.need("writer event received", 1)
	}})
}
