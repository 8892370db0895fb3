package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C39: what the tap prints. A received message is worked through line by line
// (see cursor); each line is written to the standard output, unless there is a
// pattern which it was found not to match.
//
// "line" is "new" until the current line is printed, "match" what the pattern
// said about it, and "pattern" is set while there is one.

type tapMod struct {
	BaseModule
	c     *Ctx
	flags map[string]VPtr
}

func (m *tapMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

func (m *tapMod) inMsg(in *Interp) bool { return in.curRoot != nil && in.curRoot.kind == "nats" }

// option tells whether v is the value of a command line option.
func (m *tapMod) option(in *Interp, st *State, name string, v Val) bool {
	s, ok := unwrap(v).(VStr)
	p, ok2 := m.flags[name]
	if !ok || !ok2 || s.T == nil || !st.hasObj(p.Obj) && st.obj(p.Obj) == nil {
		return false
	}
	for _, x := range in.load(st, p) {
		if t, ok := x.v.(VStr); !ok || t.T != s.T {
			return false
		}
	}
	return true
}

func (m *tapMod) noPattern(in *Interp, st *State) bool {
	p, ok := m.flags["e"]
	if !ok {
		return false
	}
	for _, x := range in.load(st, p) {
		s, ok := x.v.(VStr)
		if !ok || !(s.Const != nil && *s.Const == "" || s.Len != nil && st.num.le(s.Len)) {
			return false
		}
	}
	return true
}

// stdout tells whether v is the standard output.
func (m *tapMod) stdout(in *Interp, st *State, v Val) bool {
	p, ok := unwrap(v).(VPtr)
	if !ok {
		return false
	}
	g, ok := in.pr.prog.ImportedPackage("os").Members["Stdout"].(*ssa.Global)
	if !ok {
		return false
	}
	for _, x := range in.load(st, VPtr{Obj: in.globalObj(g)}) {
		if q, ok := x.v.(VPtr); ok && q.Obj == p.Obj {
			return true
		}
	}
	return false
}

// isLine tells whether v has the bytes of the current line.
func (m *tapMod) isLine(st *State, v Val) bool {
	l, ok := st.g["cur.line"].(VSlice)
	if !ok {
		return false
	}
	switch x := unwrap(v).(type) {
	case VSlice:
		return sameSlice(st, l, x)
	case VStr:
		t := srcTerm(st, l)
		return t != nil && t == x.T
	}
	return false
}

func (m *tapMod) print(c *Call, v Val) {
	st, where := c.st, c.in.pos(c.fr, c.instr)
	if !m.inMsg(c.in) {
		m.check(c.in, "only lines", false, where, "something else than received lines is printed")
		return
	}
	if d, ok := st.g["cur.data"].(VSlice); ok && st.g["cur.lines"] == nil && st.d["line"] == "" && st.d["pattern"] == "" {
		if s, ok := unwrap(v).(VSlice); ok && sameSlice(st, d, s) && eqBoth(st, d.Off, st.g["cur.pos"].(VInt).L) {
			st.g["cur.pos"] = VInt{d.Off.add(d.Len)}
			m.check(c.in, "printed", true, where, "")
			return
		}
	}
	if s, ok := unwrap(v).(VSlice); ok && st.num.le(s.Len) {
		return
	}
	delete(st.g, "buf.bytes")
	m.check(c.in, "only lines", m.isLine(st, v), where, "something else than the current line is printed")
	m.check(c.in, "once", st.d["line"] == "new", where, "a line is printed twice")
	m.check(c.in, "matching", st.d["pattern"] == "" || st.d["match"] == "1", where, "a line is printed which does not match the pattern")
	m.check(c.in, "printed", true, where, "")
	st.d["line"] = "out"
}

// settle checks that the current line is done with.
func (m *tapMod) settle(in *Interp, st *State, where string) {
	if st.d["line"] == "new" {
		ok := st.d["pattern"] != "" && st.d["match"] == "0"
		if l, has := st.g["cur.line"].(VSlice); has && st.num.le(l.Len) {
			ok = true
		}
		m.check(in, "complete", ok, where, "a line is not printed although the pattern does not exclude it")
	}
	delete(st.d, "line")
	delete(st.d, "match")
}

func (m *tapMod) Pre(c *Call) ([]Outcome, bool) {
	st, where := c.st, c.in.pos(c.fr, c.instr)
	text := func(from int) { // the operands of a printing function
		v := c.variadic(from)
		if len(v) == 1 {
			m.print(c, v[0])
		} else {
			m.print(c, VNil{})
		}
	}
	format := func(i int) {
		if f, ok := c.constStr(i); ok && f == "%s" {
			text(i + 1)
		} else {
			m.print(c, VNil{})
		}
	}
	switch c.name {
	case "flag.String":
		n, ok := c.constStr(0)
		if !ok {
			panic(undecided{"an option without a fixed name"})
		}
		p := nonNil(symVal(c.rtyp, tm("flag:"+n))).(VPtr)
		m.flags[n] = p
		return c.outs(p), true
	case "flag.StringVar":
		n, ok := c.constStr(1)
		p, ok2 := c.arg(0).(VPtr)
		if !ok || !ok2 {
			panic(undecided{"an option without a fixed name"})
		}
		m.flags[n] = p
		var out []Outcome
		for _, s := range c.in.store(st, p, symVal(types.Typ[types.String], tm("flag:"+n))) {
			out = append(out, Outcome{s, VTuple{}})
		}
		return out, true
	case "flag.Parse":
		st.d["parsed"] = "1"
	case "nats.Connect":
		m.check(c.in, "server", st.d["parsed"] != "" && m.option(c.in, st, "h", c.arg(0)), where, "the tap does not connect to the server asked for")
		o := c.okOrErr("connect")
		o[0].st.d["connected"] = "1"
		o[1].st.d["failed"] = "1"
		return o, true
	case "regexp.Compile", "regexp.MustCompile":
		m.check(c.in, "pattern", st.d["parsed"] != "" && m.option(c.in, st, "e", c.arg(0)), where, "another pattern is used than asked for")
		if c.name == "regexp.MustCompile" {
			st.d["pattern"] = "1"
			return c.outs(nonNil(symVal(c.rtyp, tm("pattern")))), true
		}
		o := c.okOrErr("regexp")
		t := o[0].ret.(VTuple)
		t.E[0] = nonNil(symVal(c.resType(0), tm("pattern")))
		o[0].st.d["pattern"] = "1"
		o[1].st.d["failed"] = "1"
		return o, true
	case "(*nats.Conn).Subscribe":
		m.check(c.in, "connected", st.d["connected"] != "", where, "the tap goes on although it is not connected")
		m.check(c.in, "subject", st.d["parsed"] != "" && m.option(c.in, st, "s", c.arg(1)), where, "the tap does not subscribe to the subject asked for")
		m.check(c.in, "subscribed once", st.d["subscribed"] == "", where, "the tap subscribes twice")
		st.d["subscribed"] = "1"
		return nil, false
	case "(*regexp.Regexp).Match", "(*regexp.Regexp).MatchString":
		if !m.inMsg(c.in) {
			return nil, false
		}
		p, ok := c.arg(0).(VPtr)
		ok = ok && st.hasObj(p.Obj) && st.obj(p.Obj).sym == tm("pattern")
		m.check(c.in, "tried", ok && m.isLine(st, c.arg(1)), where, "the pattern is tried on something else than the current line")
		no := st.clone()
		st.d["match"], no.d["match"] = "1", "0"
		return []Outcome{{st, vbool(true)}, {no, vbool(false)}}, true
	case "(*os.File).Write", "(*os.File).WriteString", "(io.Writer).Write", "io.WriteString":
		if m.stdout(c.in, st, c.arg(0)) {
			all, ok := st.g["buf.bytes"].(VSlice)
			if s, isS := unwrap(c.arg(1)).(VSlice); ok && isS && sameSlice(st, all, s) {
				m.settle(c.in, st, where)
				delete(st.d, "held")
			} else {
				m.check(c.in, "kept", st.d["held"] == "", where, "a line is printed before those collected")
				m.print(c, c.arg(1))
			}
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if m.stdout(c.in, st, c.arg(0)) {
			switch c.name {
			case "fmt.Fprint":
				if v := c.variadic(1); len(v) == 1 {
					if _, ok := unwrap(v[0]).(VStr); ok {
						text(1)
						break
					}
				}
				m.print(c, VNil{})
			case "fmt.Fprintf":
				format(1)
			default:
				m.print(c, VNil{})
			}
		}
	case "fmt.Print":
		if v := c.variadic(0); len(v) == 1 {
			if _, ok := unwrap(v[0]).(VStr); ok {
				text(0)
				break
			}
		}
		m.print(c, VNil{})
	case "fmt.Printf":
		format(0)
	case "fmt.Println":
		m.print(c, VNil{})
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if m.stdout(c.in, st, c.arg(0)) {
			return c.outs(nonNil(symVal(c.rtyp, tm("buffered", freshTerm("writer"))))), true
		}
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		if m.buffered(st, c.arg(0)) {
			m.print(c, c.arg(1))
			st.d["held"] = "1"
			return c.okOrErr("write"), true
		}
	case "(*bufio.Writer).Flush":
		if m.buffered(st, c.arg(0)) {
			delete(st.d, "held")
			return c.okOrErr("flush"), true
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		if m.inMsg(c.in) && m.isLine(st, c.arg(1)) {
			b, ok := c.arg(0).(VPtr)
			o, had := st.g["buf"].(VPtr)
			m.check(c.in, "one buffer", ok && (!had || o.Obj == b.Obj), where, "lines are collected in several places")
			m.print(c, c.arg(1))
			if !had {
				m.check(c.in, "own buffer", st.hasObj(b.Obj) && st.obj(b.Obj).sym == nil, where, "lines are collected with those of other messages")
			}
			st.g["buf"] = VPtr{Obj: b.Obj}
			st.d["held"] = "1"
		}
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
		m.check(c.in, "kept", st.d["held"] == "", where, "collected lines are discarded")
	case "(*bytes.Buffer).WriteTo":
		if b, ok := c.arg(0).(VPtr); ok && m.isBuf(st, b) && m.stdout(c.in, st, c.arg(1)) {
			delete(st.d, "held")
		}
	case "(*os.File).Close":
		m.check(c.in, "stays open", !m.stdout(c.in, st, c.arg(0)), where, "the standard output is closed")
	case "(*nats.Conn).Close", "(*nats.Conn).Drain", "(*nats.Subscription).Unsubscribe", "(*nats.Subscription).AutoUnsubscribe":
		m.check(c.in, "keeps on", false, where, "the tap stops receiving")
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		m.check(c.in, "exits", !m.inMsg(c.in) && (st.d["failed"] != "" || st.d["subscribed"] == ""), where, "the tap exits although it is connected")
	case "runtime.Goexit":
		m.check(c.in, "runs", !m.inMsg(c.in) && st.d["subscribed"] != "", where, "the tap waits without having subscribed")
	}
	return nil, false
}

func (m *tapMod) Post(c *Call, o *Outcome) {
	switch {
	case m.inMsg(c.in):
		curPost(c, o)
		if b, ok := c.arg(0).(VPtr); c.name == "(*bytes.Buffer).Bytes" && ok && m.isBuf(o.st, b) {
			o.st.g["buf.bytes"] = o.ret
		}
	case c.name == "(*nats.Conn).Subscribe" && !mustNil(o.st, retN(o.ret, 1)):
		o.st.d["failed"] = "1"
	}
}

// isBuf tells whether lines are collected in a buffer.
func (m *tapMod) isBuf(st *State, b VPtr) bool {
	o, ok := st.g["buf"].(VPtr)
	return ok && o.Obj == b.Obj
}

// buffered tells whether v is a buffer for the standard output.
func (m *tapMod) buffered(st *State, v Val) bool {
	p, ok := unwrap(v).(VPtr)
	return ok && st.hasObj(p.Obj) && st.obj(p.Obj).sym != nil && st.obj(p.Obj).sym.op == "buffered"
}

func (m *tapMod) next(in *Interp, st *State, where string, had bool, old Val) {
	cur := st.g["cur.line"]
	if had {
		st.g["cur.line"] = old
	}
	m.settle(in, st, where)
	st.g["cur.line"] = cur
	st.d["line"] = "new"
}

func (m *tapMod) Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, ins ssa.Instruction) {
	if !m.inMsg(in) || ptr.Idx == nil {
		return
	}
	old, had := st.g["cur.line"]
	next, ok := curLoad(st, ptr, v)
	if next {
		m.next(in, st, in.pos(fr, ins), had, old)
		return
	}
	m.check(in, "order", ok, in.pos(fr, ins), "the received lines are not looked at one after the other")
}

func (m *tapMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	st := p.st
	where := in.pos(fr, ins)
	switch x := ins.(type) {
	case *ssa.Slice:
		if m.inMsg(in) {
			if s, ok := curSlice(in, p, x); ok {
				old, had := st.g["cur.line"]
				if curNext(st, s) {
					m.next(in, st, where, had, old)
				}
			}
		}
	case *ssa.Select:
		if x.Blocking && len(x.States) == 0 {
			m.check(in, "runs", !m.inMsg(in) && st.d["subscribed"] != "", where, "the tap waits without having subscribed")
		}
	case *ssa.Return:
		if fr.parent != nil {
			return
		}
		if m.inMsg(in) {
			m.settle(in, st, where)
			m.check(in, "flushed", st.d["held"] == "", where, "lines are collected but not printed")
			m.check(in, "all", curDone(st), where, "not every line of a message is looked at")
		} else if in.curRoot == nil && strings.HasSuffix(in.pr.fname(fr.fn), ".main") {
			m.check(in, "runs", false, where, "the program ends by itself")
		}
	}
}

func init() {
	register(&Property{id: "C39", level: "other", rule: "abstract interpretation of the tap's main function and subscription: each line printed once, whole and in order, unless the pattern excludes it, and nothing else", run: func(c *Ctx) {
		m := &tapMod{c: c, flags: map[string]VPtr{}}
		in := newInterp(c.pr, m)
		st := in.globalsState()
		in.runEntry(c.pr.fn("cmd/influx-spout-tap.main"), nil, nil, st)
		in.runRoots(func(r *Root, st *State) *State {
			if r.kind != "nats" {
				return st
			}
			pat := st.d["pattern"]
			m.check(in, "pattern used", pat != "" || m.noPattern(in, st), "", "the pattern asked for is not used")
			st.d, st.g = map[string]string{}, map[string]Val{}
			if pat != "" {
				st.d["pattern"] = pat
			}
			args := in.curPath.env[rootArgKey].(VTuple).E
			p, ok := args[len(args)-1].(VPtr)
			if !ok {
				panic(undecided{"the message received"})
			}
			for _, x := range in.load(st, VPtr{Obj: p.Obj, Path: []int{fieldIdx(st.obj(p.Obj).typ, "Data")}}) {
				if d, ok := x.v.(VSlice); ok {
					curStart(st, d)
				}
			}
			return st
		})
		c.absorb(in)
		for _, k := range []string{"server", "subject", "connected", "subscribed once", "runs", "printed", "all", "pattern", "pattern used", "tried"} {
			c.need(k, 1)
		}
	}})
}
