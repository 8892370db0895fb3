package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

type Property struct {
	id    string
	level string
	rule  string
	run   func(*Ctx)
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.id] = p }

func runProperty(p *Property, pr *Program, loadErr string, tier, out string, seed int) int {
	start := time.Now()
	c := newCtx(pr, p.id, tier)
	if loadErr != "" {
		c.oblige("load", false, "loader", loadErr)
		return c.finish(p, out, start, seed)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case undecided:
					c.oblige("undecided", false, "checker", "not decided: "+x.msg)
				default:
					c.oblige("undecided", false, "checker", fmt.Sprintf("analysis failed: %v", r))
					if os.Getenv("CHKDEBUG") != "" {
						fmt.Println(string(debug.Stack()))
					}
				}
			}
		}()
		p.run(c)
	}()
	return c.finish(p, out, start, seed)
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property id, or all")
	out := flag.String("out", "/verif", "directory with known_findings.txt and evidence/")
	list := flag.Bool("list", false, "list properties")
	exts := flag.Bool("externals", false, "list external callees")
	dump := flag.String("dump", "", "print SSA")
	debug.SetGCPercent(400)
	entry := flag.String("entry", "", "debug: bounds of one function")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
			go func() { time.Sleep(100 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
		}
	}
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, properties[id].level, properties[id].rule)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var pr *Program
	var lerr string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if l, ok := r.(loadError); ok {
					lerr = l.msg
				} else {
					lerr = fmt.Sprint(r)
				}
			}
		}()
		pr = loadProgram(*repo)
	}()
	if *dump != "" {
		dumpFn(pr, *dump)
		return
	}
	if os.Getenv("PTA") != "" {
		debugPTA(pr)
		return
	}
	if *entry != "" {
		t0 := time.Now()
		debugEntry(pr, *entry)
		fmt.Println(time.Since(t0))
		return
	}
	if *exts {
		listExternals(pr)
		return
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		p := properties[id]
		if p == nil {
			fmt.Printf("unknown property %q\n", id)
			fmt.Printf("VIOLATION property=%s replay=-\n", id)
			os.Exit(1)
		}
		if r := runProperty(p, pr, lerr, tier, *out, seed); r != 0 {
			rc = r
		}
	}
	pprof.StopCPUProfile()
	if os.Getenv("CHKDEBUG") != "" {
		fmt.Fprintln(os.Stderr, "LP", lpNo, lpYes, lpFM, upLP, upFM)
	}
	os.Exit(rc)
}
