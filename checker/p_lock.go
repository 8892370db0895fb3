package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C43: how locks are used. st.d["lock:p"] is set while the lock p is held.

type lockMod struct {
	BaseModule
	c    *Ctx
	mode string
	next map[string]map[string]bool // the locks taken while holding another one
}

// edge records that lock b is taken while lock a is held; doing this in both
// orders can end with two parts waiting for each other.
func (m *lockMod) edge(a, b, where string) {
	if m.next[a] == nil {
		m.next[a] = map[string]bool{}
	}
	m.next[a][b] = true
	seen := map[string]bool{}
	var back func(x string) bool
	back = func(x string) bool {
		if x == a {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for y := range m.next[x] {
			if back(y) {
				return true
			}
		}
		return false
	}
	m.c.oblige("order:"+m.mode, !back(b), where, "two locks are taken in different orders")
	m.c.inst("order " + m.mode)
}

func (m *lockMod) judge(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key+":"+m.mode, ok, where, msg)
		m.c.inst(key + " " + m.mode)
	}
}

func heldLocks(st *State) []string {
	var out []string
	for k := range st.d {
		if strings.HasPrefix(k, "lock:") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// waitsFor tells which calls wait for another part of the program, for time to
// pass or for a peer.
func waitsFor(name string) string {
	switch name {
	case "time.Sleep":
		return "for time to pass"
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		return "for goroutines to end"
	case "nats.Connect", "(*nats.Conn).Flush", "(*nats.Conn).FlushTimeout", "(*nats.Conn).Request", "(*nats.Conn).RequestMsg", "(*nats.Conn).Drain", "(*nats.Subscription).NextMsg":
		return "for the NATS server"
	case "(net/http.ResponseWriter).Write", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "(*net/http.Request).ParseForm", "(*net/http.Request).FormValue":
		return "for an HTTP client"
	case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyN", "io.ReadFull", "io.ReadAtLeast", "(*bufio.Scanner).Scan", "(*bytes.Buffer).ReadFrom", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine":
		return "for data to read"
	}
	if strings.HasPrefix(name, "(*net/http.Client).") || name == "net/http.Get" || strings.HasPrefix(name, "net/http.Post") || strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net/http.Server).") && !strings.HasSuffix(name, ").Close") {
		return "for a remote peer"
	}
	if isRead(name) && !strings.HasPrefix(name, "(*bytes.") && !strings.HasPrefix(name, "(*strings.") && !strings.HasPrefix(name, "(*math/rand.") {
		return "for data to read"
	}
	return ""
}

func (m *lockMod) blocked(in *Interp, fr *Frame, st *State, ins ssa.Instruction, why string) {
	held := heldLocks(st)
	m.judge(in, "waits", len(held) == 0, in.pos(fr, ins), "waits "+why+" while holding a lock")
}

func (m *lockMod) Pre(c *Call) ([]Outcome, bool) {
	st, in := c.st, c.in
	where := in.pos(c.fr, c.instr)
	switch {
	case strings.HasSuffix(c.name, "Mutex).Lock"), strings.HasSuffix(c.name, "Mutex).RLock"), c.name == "(sync.Locker).Lock":
		k := "lock:" + valString(c.arg(0))
		held := heldLocks(st)
		m.judge(in, "again", st.d[k] == "", where, "a lock is taken again by the part which already holds it")
		for _, h := range held {
			if h != k && in.rec {
				m.edge(h, k, where)
			}
		}
		st.d[k] = "1"
	case strings.HasSuffix(c.name, "Mutex).Unlock"), strings.HasSuffix(c.name, "Mutex).RUnlock"), c.name == "(sync.Locker).Unlock":
		k := "lock:" + valString(c.arg(0))
		m.judge(in, "unlocks", st.d[k] != "", where, "a lock is released which is not held")
		delete(st.d, k)
	default:
		if c.fn != nil && in.pr.inRepo(c.fn) {
			return nil, false
		}
		if w := waitsFor(c.name); w != "" {
			m.blocked(in, c.fr, st, c.instr, w)
		}
	}
	return nil, false
}

func (m *lockMod) Send(in *Interp, fr *Frame, st *State, ch, v Val, ins ssa.Instruction) {
	if s, ok := ins.(*ssa.Send); ok {
		m.blocked(in, fr, st, s, "to hand something over")
	}
}

func (m *lockMod) Instr(in *Interp, fr *Frame, p *Path, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Select:
		if x.Blocking {
			m.blocked(in, fr, p.st, ins, "for another part")
		}
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			m.blocked(in, fr, p.st, ins, "for another part")
		}
	case *ssa.Return:
		if fr.parent == nil {
			held := heldLocks(p.st)
			m.judge(in, "released", len(held) == 0, in.pos(fr, ins), "ends without releasing a lock it took")
		}
	}
}

func init() {
	register(&Property{id: "C43", level: "other", rule: "abstract interpretation of every concurrently running part with the locks it holds: released on every path, never taken twice, never held while waiting", run: func(c *Ctx) {
		runComponents(c, func(cp component) (*Interp, func(*Root, *State) *State) {
			m := &lockMod{c: c, mode: cp.mode, next: map[string]map[string]bool{}}
			in := newInterp(c.pr, m)
			apiOpaque(in, "stats.", "(*stats.", "probes.", "(*probes.", "(prometheus.Labels).With", "prometheus.", "(*prometheus.", "filter.RuleSetFromConfig")
			useContracts(in)
			return in, func(r *Root, st *State) *State {
				for _, k := range heldLocks(st) {
					delete(st.d, k)
				}
				return st
			}
		})
		for _, md := range []string{"listener_http", "monitor"} {
			c.need("released "+md, 1)
			c.need("unlocks "+md, 1)
		}
		for _, cp := range componentList {
			c.need("waits "+cp.mode, 1)
		}
	}})
}
