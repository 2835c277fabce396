package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Ctx is what the rules of one property report to.
type Ctx struct {
	a     *Analysis
	prop  string
	tier  string
	conf  string          // the build configuration being analysed
	obl   map[string]bool // obligation key -> discharged
	rules map[string]int  // rule -> instances
	bads  map[string]*bad
	runs  map[*Run]bool
	paths int
	sites int
}

type bad struct {
	key, msg string
	where    []string
}

type ruleGroup struct {
	name string
	what string
	min  int // the least number of instances confirmed by reading the code
	f    func(c *Ctx, g *ruleGroup)
}

type property struct {
	id     string
	groups []*ruleGroup
}

// ok records a discharged obligation.
func (c *Ctx) ok(g *ruleGroup, construct string) {
	k := g.name + " @ " + construct
	if _, seen := c.obl[k]; !seen {
		c.obl[k] = true
		c.rules[g.name]++
	}
}

// bad records an obligation that does not hold.
func (c *Ctx) bad(g *ruleGroup, construct string, pos token.Pos, f string, args ...interface{}) {
	k := g.name + " @ " + construct
	if _, seen := c.obl[k]; !seen {
		c.rules[g.name]++
	}
	c.obl[k] = false
	b := c.bads[k]
	if b == nil {
		b = &bad{key: k, msg: fmt.Sprintf(f, args...)}
		c.bads[k] = b
	}
	if len(b.where) < 6 {
		w := c.a.p.pos(pos)
		for _, x := range b.where {
			if x == w {
				return
			}
		}
		b.where = append(b.where, w)
	}
}

// must records the obligation as discharged or not.
func (c *Ctx) must(cond bool, g *ruleGroup, construct string, pos token.Pos, f string, args ...interface{}) bool {
	if cond {
		c.ok(g, construct)
	} else {
		c.bad(g, construct, pos, f, args...)
	}
	return cond
}

// use notes that a run was consulted; what the analysis could not follow fails.
func (c *Ctx) use(g *ruleGroup, rs []*Run) []*Run {
	for _, r := range rs {
		if c.runs[r] {
			continue
		}
		c.runs[r] = true
		for _, n := range r.in.notes {
			c.bad(g, r.name+" undecided: "+n.msg, n.pos, "%s cannot be decided: %s", r.name, n.msg)
		}
		for _, o := range r.outcomes() {
			c.paths++
			c.sites += len(o.sites())
		}
	}
	return rs
}

// each visits every outcome of an entry point.
func (c *Ctx) each(g *ruleGroup, prof profile, pkg, name, ctor string, f func(r *Run, o *Outcome)) {
	for _, r := range c.use(g, c.a.run(prof, pkg, name, ctor)) {
		if len(r.outcomes()) == 0 {
			c.bad(g, r.name+" has no exit", r.fn.Pos(), "%s never returns on any analysed path", r.name)
		}
		for _, o := range r.outcomes() {
			f(r, o)
		}
	}
}

// runGroup decides the rules of a group, once for all properties that need them.
func (c *Ctx) runGroup(g *ruleGroup) {
	m := c.a.memo[g]
	if m == nil {
		m = &Ctx{a: c.a, conf: c.conf, obl: map[string]bool{}, rules: map[string]int{}, bads: map[string]*bad{}, runs: map[*Run]bool{}}
		m.decide(g)
		c.a.memo[g] = m
	}
	for k, ok := range m.obl {
		if d, seen := c.obl[k]; !seen || d {
			c.obl[k] = ok
		}
	}
	for n, x := range m.rules {
		c.rules[n] += x
	}
	for k, b := range m.bads {
		if c.bads[k] == nil {
			d := *b
			c.bads[k] = &d
		}
	}
	for r := range m.runs {
		if !c.runs[r] {
			c.runs[r] = true
			for _, o := range r.outcomes() {
				c.paths++
				c.sites += len(o.sites())
			}
		}
	}
}

func (c *Ctx) decide(g *ruleGroup) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				c.bad(g, "unresolved: "+f.msg, token.NoPos, "%s", f.msg)
				return
			}
			if os.Getenv("D1STATIC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			c.bad(g, "analysis failed", token.NoPos, "the analysis stopped: %v", r)
		}
	}()
	before := c.rules[g.name]
	g.f(c, g)
	if n := c.rules[g.name] - before; n < g.min {
		c.bad(g, "instances", token.NoPos, "only %d instances of the rule were found, at least %d were confirmed by reading", n, g.min)
	}
}

type config struct{ name, goos, goarch string }

func cmdCheck(args []string) int {
	prop, tier, repo, out := "", "quick", "/repo", "/verif"
	for i := 0; i+1 < len(args); i += 2 {
		switch args[i] {
		case "-prop":
			prop = args[i+1]
		case "-tier":
			tier = args[i+1]
		case "-repo":
			repo = args[i+1]
		case "-out":
			out = args[i+1]
		}
	}
	var props []*property
	for _, p := range properties() {
		if prop == "all" || strings.Contains(","+prop+",", ","+p.id+",") {
			props = append(props, p)
		}
	}
	if len(props) == 0 {
		fmt.Println("unknown property", prop)
		return 2
	}
	start := time.Now()
	confs := []config{{"host", "", ""}}
	if tier == "thorough" {
		confs = append(confs, config{"linux/386", "linux", "386"}, config{"windows/amd64", "windows", "amd64"}, config{"darwin/arm64", "darwin", "arm64"})
	}
	type result struct {
		conf config
		ctx  map[string]*Ctx
		err  error
		fns  int
	}
	var results []result
	for _, cf := range confs {
		resetTerms()
		p, err := safeLoad(repo, cf)
		res := result{conf: cf, ctx: map[string]*Ctx{}, err: err}
		if err == nil {
			a := newAnalysis(p)
			res.fns = len(p.funcs)
			for _, pr := range props {
				c := &Ctx{a: a, prop: pr.id, tier: tier, conf: cf.name, obl: map[string]bool{}, rules: map[string]int{}, bads: map[string]*bad{}, runs: map[*Run]bool{}}
				for _, g := range pr.groups {
					c.runGroup(g)
				}
				res.ctx[pr.id] = c
			}
		}
		results = append(results, res)
	}
	code := 0
	known := readKnown(filepath.Join(out, "known-findings.txt"))
	for _, pr := range props {
		var viol []*bad
		var errs []string
		nobl, ndis, paths, sites, fns := 0, 0, 0, 0, 0
		rules := map[string]int{}
		entry := map[string]bool{}
		used := map[string]bool{}
		var samples []string
		seenKnown := map[string]bool{}
		for _, rs := range results {
			if rs.err != nil {
				errs = append(errs, rs.conf.name+": "+rs.err.Error())
				continue
			}
			c := rs.ctx[pr.id]
			fns += rs.fns
			for k, d := range c.obl {
				nobl++
				if d {
					ndis++
				}
				_ = k
			}
			for k, n := range c.rules {
				rules[k] += n
			}
			for r := range c.runs {
				entry[r.name] = true
				for f := range r.in.visited {
					used[c.a.p.fnName(f)] = true
				}
			}
			paths += c.paths
			sites += c.sites
			for _, b := range c.bads {
				if kf := known.match(pr.id, b.key); kf != "" {
					if !seenKnown[b.key] {
						seenKnown[b.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.id, kf)
					}
					continue
				}
				if rs.conf.name != "host" {
					b.msg += " [" + rs.conf.name + "]"
				}
				viol = append(viol, b)
			}
			if len(samples) == 0 {
				var ks []string
				for k := range c.obl {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for i, k := range ks {
					if i < 12 || len(ks) < 40 {
						samples = append(samples, k)
					}
				}
			}
		}
		sort.Slice(viol, func(i, j int) bool { return viol[i].key < viol[j].key })
		replay := filepath.Join(out, "evidence", pr.id+".violations.txt")
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.Remove(replay)
		if len(viol) > 0 || len(errs) > 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s: %s\nreproduce with: cd /verif && ./run.sh %s %s\n\n", pr.id, about[pr.id], pr.id, tier)
			for _, e := range errs {
				fmt.Fprintf(&sb, "the source could not be analysed: %s\n", e)
				fmt.Printf("%s: the source could not be analysed: %s\n", pr.id, e)
			}
			seen := map[string]bool{}
			n := 0
			for _, b := range viol {
				if seen[b.key] {
					continue
				}
				seen[b.key] = true
				line := fmt.Sprintf("%s: [%s] %s (%s)", pr.id, b.key, b.msg, strings.Join(b.where, ", "))
				fmt.Fprintln(&sb, line)
				if n < 20 {
					fmt.Println(line)
				}
				n++
			}
			os.WriteFile(replay, []byte(sb.String()), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, replay)
			code = 1
		} else {
			fmt.Printf("%s: %d obligations discharged over %d paths of %d entry points\n", pr.id, ndis, paths, len(entry))
		}
		var cn []string
		for _, cf := range confs {
			cn = append(cn, cf.name)
		}
		what := map[string]string{}
		for _, g := range pr.groups {
			what[g.name] = g.what
		}
		ev := map[string]interface{}{
			"property": pr.id, "tier": tier, "seed": 1, "level": "other",
			"coverage": map[string]interface{}{
				"explanation": "Static analysis of /repo's current source (type-checked, compiled to SSA): every path of the listed entry points is followed through the repository's own functions by abstract interpretation (loops summarised), and each obligation below is decided on the resulting paths, operations and known facts. " + about[pr.id],
				"obligations": nobl, "discharged": ndis,
				"rules":                            rules,
				"rule_texts":                       what,
				"entry_points":                     sortStrings(entry),
				"functions_followed":               sortStrings(used),
				"paths_analysed":                   paths,
				"operations_on_paths":              sites,
				"functions_in_repository_analysed": fns,
				"build_configurations":             cn,
				"samples":                          samples,
			},
			"assumptions": assumptions,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(viol) + len(errs),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, "evidence", pr.id+".json"), append(b, '\n'), 0o644)
	}
	return code
}

var assumptions = []string{
	"Go's type system and the go/ssa translation (golang.org/x/tools v0.52.0) represent the program the compiler builds.",
	"Library code outside the repository (standard library, json-iterator, bbolt, gofrs/uuid, x/crypto, zerolog) behaves as documented; the operations used are described in the analyzer's models.",
	"Memory reached through two different parameters of an entry point does not overlap.",
	"Providers passed in by the user behave as their interface documentation says.",
}

func safeLoad(repo string, cf config) (p *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("D1STATIC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			err = fmt.Errorf("loading failed: %v", r)
		}
	}()
	var env []string
	if cf.goos != "" {
		env = append(env, "GOOS="+cf.goos, "GOARCH="+cf.goarch, "CGO_ENABLED=0")
	}
	return loadProgram(repo, env...)
}

type knownFindings []struct{ prop, key, text string }

// readKnown reads lines "known: property=<id> key=<obligation> what=<text>".
func readKnown(path string) knownFindings {
	var out knownFindings
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " what=")
		if i < 0 || j < i {
			continue
		}
		out = append(out, struct{ prop, key, text string }{l[:i], l[i+5 : j], l[j+6:]})
	}
	return out
}

func (k knownFindings) match(prop, key string) string {
	for _, f := range k {
		if f.prop == prop && f.key == key {
			return f.text
		}
	}
	return ""
}
