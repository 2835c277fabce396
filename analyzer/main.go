package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2:]))
	}
	dump()
}

// dump prints what the analysis finds for one entry point: dump DIR PKG NAME [parts|none] [CTOR]
func dump() {
	if len(os.Args) > 5 {
		dumpWith()
		return
	}
	p, err := loadProgram(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	f := p.fn(os.Args[2], os.Args[3])
	if f == nil {
		fmt.Println("no fn")
		os.Exit(1)
	}
	in := &Interp{p: p, visited: map[*ssa.Function]bool{}, boundary: cryptoBoundary}
	if len(os.Args) > 4 {
		switch os.Args[4] {
		case "parts":
			in.boundary = partsBoundary
		case "none":
			in.boundary = noBoundary
		}
	}
	st := p.initSt.clone()
	var args []*Term
	for _, q := range f.Params {
		args = append(args, mk(KParam, "", 0, q.Type(), nil, q))
	}
	ex := in.run(f, args, nil, st, ctxOf(0, f, "entry"))
	for i, e := range ex {
		fmt.Printf("=== exit %d panic=%v %s\n", i, e.panic, p.pos(e.pos))
		for _, f := range e.st.facts {
			fmt.Printf("   fact %v %s\n", f.val, f.atom)
		}
		printEvents(p, e.st.events, "   ")
		for _, w := range e.st.writes {
			fmt.Printf("   write %s %s %s\n", w.root, w.how, p.pos(w.pos))
		}
		for _, r := range e.res {
			fmt.Printf("   -> %s\n", in.snap(e.st, r).str(9))
		}
	}
	for _, n := range in.notes {
		fmt.Println("NOTE", p.pos(n.pos), n.msg)
	}
	fmt.Println(len(ex), "exits", in.steps, "steps")
}

func printEvents(p *Program, es []*Event, ind string) {
	for _, ev := range es {
		if ev.loop != nil {
			fmt.Printf("%sloop %s sweep=%v\n", ind, p.pos(ev.pos), ev.sweep != nil)
			for _, v := range ev.loop.vars {
				fmt.Printf("%s  var %s entry %s kind %s\n", ind, v.term, v.entry, v.kind)
			}
			for _, b := range ev.loop.backs {
				fmt.Printf("%s  back:\n", ind)
				for v, n := range b.next {
					fmt.Printf("%s    next %s = %s\n", ind, v.term, n)
				}
				for _, f := range b.facts {
					fmt.Printf("%s    fact %v %s\n", ind, f.val, f.atom)
				}
				printEvents(p, b.events, ind+"    ")
			}
			continue
		}
		fmt.Printf("%sev %s %v %s\n", ind, ev.op, ev.args, p.pos(ev.pos))
	}
}

func dumpWith() {
	p, err := loadProgram(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	a := newAnalysis(p)
	prof := profCrypto
	switch os.Args[4] {
	case "parts":
		prof = profParts
	case "none":
		prof = profNone
	}
	runs := a.run
	if os.Args[2] == "witness" {
		runs = func(prof profile, _, name, _ string) []*Run { return []*Run{a.compose(prof, name)} }
	}
	if len(os.Args) > 6 { // the method of what the constructor returns
		runs = a.methodRuns4
	}
	for _, r := range runs(prof, os.Args[2], os.Args[3], os.Args[5]) {
		fmt.Println("RUN", r.name, "receiver", r.recv)
		short := os.Args[2] == "witness" && len(os.Args) == 6 && os.Args[5] == "s"
		for i, o := range r.outcomes() {
			if short {
				if d := r.result(o, "done"); d != nil && d == tFalse {
					continue
				}
				fmt.Printf("  outcome %d %v:", i, o.panic)
				for _, x := range o.res {
					fmt.Printf(" [%.150s]", x.str(6))
				}
				fmt.Println()
				continue
			}
			fmt.Printf("=== outcome %d ok=%v panic=%v %s\n", i, o.ok, o.panic, p.pos(o.pos))
			for _, f := range o.st.facts {
				fmt.Printf("   fact %v %s\n", f.val, f.atom.str(9))
			}
			printEvents(p, o.st.events, "   ")
			for _, l := range o.st.logs {
				fmt.Printf("   log %s %v\n", l.op, l.args)
			}
			for _, w := range o.st.writes {
				fmt.Printf("   write %s %s %s\n", w.root, w.how, p.pos(w.pos))
			}
			for _, x := range o.res {
				fmt.Printf("   -> %s\n", x.str(9))
			}
		}
	}
}

func (a *Analysis) methodRuns4(prof profile, pkg, method, ctor string) []*Run {
	return a.methodRuns(prof, pkg, ctor, method)
}
