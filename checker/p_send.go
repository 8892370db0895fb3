package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02 and C03: what the send loops hand to NATS and InfluxDB.
//
// The ghost value "end" is the position up to which the batch has been handed
// over since it was last cleared. Handing over the slice [off,off+len) of the
// batch requires off == end and moves end to off+len; clearing the batch
// requires end to be where the batch ends.

type sendMod struct {
	BaseModule
	sizes, parts bool
	c            *Ctx
	mode         string
	cfg          VPtr
}

// isField reports whether a string was read from a configuration field.
func isField(v Val, name string) bool {
	s, ok := v.(VStr)
	return ok && s.T != nil && s.T.op == "."+name
}

// dataOut recognises the calls which hand measurement data over.
func dataOut(c *Call) (VSlice, bool) {
	switch c.name {
	case "(*nats.Conn).Publish", "(filter.natsConn).Publish":
		if isField(c.arg(1), "NATSSubjectMonitor") {
			return VSlice{}, false
		}
		return c.slice(2), true
	case "(*nats.Conn).PublishMsg", "(*nats.Conn).PublishRequest", "(*nats.Conn).Request":
		panic(undecided{"data handed over with " + c.name})
	case "net/http.NewRequest", "net/http.Post", "(*net/http.Client).Post":
		var body Val
		switch c.name {
		case "net/http.NewRequest":
			body = c.arg(2)
		case "net/http.Post":
			body = c.arg(2)
		default:
			body = c.arg(3)
		}
		if i, ok := body.(VIface); ok {
			if p, ok := i.V.(VPtr); ok && len(p.Path) == 0 && p.Idx == nil && c.st.hasObj(p.Obj) {
				o := c.st.obj(p.Obj)
				v := o.val
				if v == nil {
					v = cellInit(o)
				}
				if s, ok := getPath(v, []int{0}).(VSlice); ok {
					return s, true
				}
			}
		}
		panic(undecided{"body of an HTTP request is not a byte slice"})
	}
	return VSlice{}, false
}

// batchOf finds the batch or buffer whose memory a slice lies in.
func batchOf(c *Call, s VSlice) (VSlice, bool) {
	var ids []ObjID
	for id, o := range c.st.heap {
		if o.kind == oCell {
			ids = append(ids, id)
		}
	}
	sortObjs(ids)
	for _, id := range ids {
		o := c.st.heap[id]
		n := typeName(o.typ)
		if n != "batch.Batch" && n != "bytes.Buffer" {
			continue
		}
		if b, ok := heldBytes(o); ok && len(b.R) == 1 && len(s.R) == 1 && b.R[0] == s.R[0] {
			return b, true
		}
	}
	return VSlice{}, false
}

// heldBytes gives what a batch or a buffer holds.
func heldBytes(o *Obj) (VSlice, bool) {
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	if typeName(o.typ) == "batch.Batch" {
		s, ok := getPath(v, []int{byteField(o.typ)}).(VSlice)
		return s, ok
	}
	s, ok := getPath(v, []int{0}).(VSlice)
	off, ok2 := getPath(v, []int{1}).(VInt)
	if !ok || !ok2 {
		return s, false
	}
	s.Off, s.Len = s.Off.add(off.L), s.Len.sub(off.L)
	return s, true
}

// byteField gives the index of the (only) []byte field of a struct.
func byteField(t types.Type) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if s, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && isByteElem(s.Elem()) {
			return i
		}
	}
	panic(undecided{"no byte slice in " + t.String()})
}

func typeName(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func sortObjs(ids []ObjID) {
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
}

func eqBoth(st *State, a, b *Lin) bool {
	d := a.sub(b)
	return d != nil && st.num.le(d) && st.num.le(d.neg())
}

// end gives the position up to which the batch has been handed over.
func (m *sendMod) end(st *State, b VSlice) *Lin {
	if v, ok := st.g["end"].(VInt); ok {
		return v.L
	}
	return b.Off
}
func (m *sendMod) all(st *State, b VSlice) bool {
	return eqBoth(st, m.end(st, b), b.Off.add(b.Len))
}
func (m *sendMod) forget(st *State) {
	delete(st.g, "end")
	delete(st.g, "whole")
}

// Sig keeps apart: nothing handed over, part of it, all of it.
func (m *sendMod) Sig(in *Interp, st *State) string {
	if !m.parts {
		return ""
	}
	s := "-"
	if _, ok := st.g["bkt"]; ok {
		s = "b"
	}
	e, ok := st.g["end"].(VInt)
	w, ok2 := st.g["whole"].(VInt)
	if !ok || !ok2 {
		return s + "0"
	}
	if eqBoth(st, e.L, w.L) {
		return s + "W"
	}
	return s + "M"
}

func (m *sendMod) Pre(c *Call) ([]Outcome, bool) {
	in := c.in
	where := in.pos(c.fr, c.instr)
	if s, ok := dataOut(c); ok {
		key := in.pr.fname(rootFn(c))
		if m.sizes {
			m.size(c, s, key, where)
		}
		if m.parts {
			b, found := batchOf(c, s)
			if !found {
				if bl, ok := c.st.g["bkt"].(VSlice); ok && len(bl.R) == 1 && len(s.R) == 1 && bl.R[0] == s.R[0] {
					b, found = bl, true
				}
			}
			if found {
				in.oblige("part:in order:"+m.mode, eqBoth(c.st, s.Off, m.end(c.st, b)), where, "the part handed over does not start where the one before ended")
				in.oblige("part:inside:"+m.mode, c.st.num.le(s.Off.add(s.Len).sub(b.Off.add(b.Len))), where, "the part handed over reaches past the end of the batch")
				c.st.g["end"] = VInt{s.Off.add(s.Len)}
				c.st.g["whole"] = VInt{b.Off.add(b.Len)}
				if in.rec {
					m.c.inst("hand-over " + m.mode)
				}
			}
		}
	}
	if !m.parts {
		return nil, false
	}
	switch c.name {
	case "(*batch.Batch).Reset", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
		p, ok := c.arg(0).(VPtr)
		if !ok || len(p.Path) > 0 || p.Idx != nil || !c.st.hasObj(p.Obj) {
			in.oblige("clear:whole:"+m.mode, false, where, "what is cleared is not known")
			break
		}
		b, ok := heldBytes(c.st.obj(p.Obj))
		ok = ok && m.all(c.st, b)
		in.oblige("clear:whole:"+m.mode, ok, where, "the batch is cleared before all of it has been handed over")
		m.forget(c.st)
		if in.rec {
			m.c.inst("clear " + m.mode)
		}
	case "(downsampler.bucket).Bytes", "(*downsampler.avgBucket).Bytes":
		m.bucketDone(c.in, c.fr, c.st, c.instr)
	}
	return nil, false
}

func (m *sendMod) bucketDone(in *Interp, fr *Frame, st *State, ins ssa.Instruction) {
	b, ok := st.g["bkt"].(VSlice)
	if !ok {
		return
	}
	in.oblige("clear:whole:"+m.mode, m.all(st, b), in.pos(fr, ins), "not all of the sampled lines have been handed over")
	m.forget(st)
	delete(st.g, "bkt")
}

func (m *sendMod) Post(c *Call, o *Outcome) {
	if m.parts && m.mode == "downsampler" && (c.name == "(*downsampler.assigner).Bytes") {
		if s, ok := sliceOf(o.ret); ok {
			o.st.g["bkt"] = s
			m.forget(o.st)
			if c.in.rec {
				m.c.inst("clear " + m.mode)
			}
		}
	}
}

func (m *sendMod) size(c *Call, s VSlice, key, where string) {
	in := c.in
	var limit *Lin
	switch m.mode {
	case "listener", "listener_http", "downsampler":
		limit = linC(maxNATSMsgSize(in.pr))
	case "writer":
		if rootName(c) != "(*writer.Writer).worker" {
			return
		}
		limit = cfgLin(c, m.cfg, "BatchMaxSize")
	default:
		return
	}
	in.oblige("size:"+m.mode, limit != nil && c.st.num.le(s.Len.sub(limit)), where, "what is handed over may be larger than the limit")
	if in.rec {
		m.c.inst("hand-over " + m.mode)
	}
}

// cfgLin reads a configuration number.
func cfgLin(c *Call, p VPtr, name string) *Lin {
	if !c.st.hasObj(p.Obj) {
		return nil
	}
	o := c.st.obj(p.Obj)
	v := o.val
	if v == nil {
		v = cellInit(o)
	}
	if x, ok := getPath(v, []int{fieldIdx(o.typ, name)}).(VInt); ok {
		return x.L
	}
	return nil
}

func maxNATSMsgSize(pr *Program) int64 {
	if k, ok := pr.pkg("config").Types.Scope().Lookup("MaxNATSMsgSize").(*types.Const); ok {
		if n, ok := constInt(k); ok {
			return n
		}
	}
	panic(undecided{"config.MaxNATSMsgSize is not a constant"})
}

func rootFn(c *Call) *ssa.Function {
	if c.fr == nil {
		return c.fn
	}
	f := c.fr
	for f.parent != nil {
		f = f.parent
	}
	return f.fn
}
func rootName(c *Call) string { return c.in.pr.fname(rootFn(c)) }

func (m *sendMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	if _, ok := ins.(*ssa.Select); ok && m.parts && m.mode == "downsampler" {
		m.bucketDone(in, fr, p.st, ins)
	}
}

func sendComponents(c *Ctx, mk func(mode string) *sendMod, modes ...string) {
	runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
		if !strings.Contains(" "+strings.Join(modes, " ")+" ", " "+cp.mode+" ") {
			return nil, nil
		}
		m := mk(cp.mode)
		m.c, m.mode = c, cp.mode
		in := newInterp(c.pr, m)
		apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With")
		useContracts(in)
		in.onConfig = func(p VPtr) { m.cfg = p }
		return in, nil
	})
	for _, md := range modes {
		c.need("hand-over "+md, 1)
	}
}

func init() {
	register(&Property{id: "C02", level: "other", rule: "abstract interpretation of every send loop: the length of what is handed over is entailed to be within the limit", run: func(c *Ctx) {
		sendComponents(c, func(string) *sendMod { return &sendMod{sizes: true} }, "listener", "listener_http", "downsampler", "writer")
	}})
	register(&Property{id: "C03", level: "other", rule: "abstract interpretation of every send loop: the parts handed over are consecutive and cover the batch when it is cleared", run: func(c *Ctx) {
		ms := []string{"listener", "listener_http", "filter", "downsampler", "writer"}
		sendComponents(c, func(string) *sendMod { return &sendMod{parts: true} }, ms...)
		for _, m := range ms {
			c.need("clear "+m, 1)
		}
	}})
}
