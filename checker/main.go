// Command verifcheck decides the properties of /verif/properties.jsonl from
// the source of /repo, without running it.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifcheck/absint"
)

// Violation is one construct that breaks a property.
type Violation struct {
	Key   string   `json:"key"`   // stable identity (function + construct), for known findings
	Where string   `json:"where"` // file:line
	What  string   `json:"what"`
	Rule  string   `json:"rule"`
	Path  []string `json:"path,omitempty"`
}

// Check is the context of one run.
type Check struct {
	ID        string
	P         *absint.Program
	Viol      []Violation
	Known     []string
	Undecided []string
	Cov       map[string]interface{}
	Assume    []string
	Samples   []string
	Oblig     int
	Disch     int
	vseen     map[string]bool
	allE      []*absint.Engine
	only      string        // the one rule that is judged in this part of a check
	errFlags  map[bool]bool // what matchObjectOrArray answers beside an error
}

type checkFn func(c *Check)

var checks = map[string]checkFn{}

// enough is the panic that ends a check with more violations than can be read.
type enough struct{}

// Violate reports a construct.
func (c *Check) Violate(key, where, rule, what string, path []string) {
	k := key + "|" + what
	if c.vseen[k] {
		return
	}
	c.vseen[k] = true
	if len(c.Viol) >= 400 {
		panic(enough{})
	}
	c.Viol = append(c.Viol, Violation{key, where, what, rule, path})
}

// Undec records an obligation the analysis could not decide either way.
func (c *Check) Undec(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, o := range c.Undecided {
		if o == s {
			return
		}
	}
	c.Undecided = append(c.Undecided, s)
}

// Ok counts a discharged obligation.
func (c *Check) Ok(f string, a ...interface{}) {
	if c.only != "" && !strings.HasSuffix(fmt.Sprintf(f, a...), c.only) {
		return
	}
	c.Oblig++
	c.Disch++
	if len(c.Samples) < 40 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, a...))
	}
}

// Bad counts a failed obligation and reports it.
func (c *Check) Bad(key, where, rule, what string, path []string) {
	if c.only != "" && rule != c.only {
		return
	}
	c.Oblig++
	c.Violate(key, where, rule, what, path)
}

// Expect is Ok or Bad.
func (c *Check) Expect(ok bool, key, where, rule, what string, path []string) bool {
	if c.only != "" && rule != c.only {
		return ok
	}
	if ok {
		c.Ok("%s: %s", key, rule)
	} else {
		c.Bad(key, where, rule, what, path)
	}
	return ok
}

// Engine makes an interpreter over the repository, with its globals initialised.
func (c *Check) Engine() *absint.Engine {
	e := absint.NewEngine(c.P.SSA)
	e.InitGlobals(c.P)
	for _, u := range e.Undecided {
		c.Undec("package initialisation: %s", u)
	}
	e.Undecided = nil
	e.GCFacts = true
	c.allE = append(c.allE, e)
	return e
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func overlayFile() (string, func()) {
	// the module files are laid over the repository (it has none of its own)
	repo := repoDir()
	if repo == "/repo" {
		return filepath.Join(verifDir(), "repomod", "overlay.json"), func() {}
	}
	f, err := os.CreateTemp("", "verif-overlay-*.json")
	if err != nil {
		fatal(err)
	}
	json.NewEncoder(f).Encode(map[string]interface{}{"Replace": map[string]string{
		filepath.Join(repo, "go.mod"): filepath.Join(verifDir(), "repomod", "go.mod"),
		filepath.Join(repo, "go.sum"): filepath.Join(verifDir(), "repomod", "go.sum"),
	}})
	f.Close()
	return f.Name(), func() { os.Remove(f.Name()) }
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifcheck <property>")
		os.Exit(3)
	}
	ov, clean := overlayFile()
	t0 := time.Now()
	p, err := absint.Load(repoDir(), ov, "")
	clean()
	if err != nil {
		fatal(err)
	}
	absint.Debug = os.Getenv("VERIF_DEBUG") != ""
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		fn := checks[id]
		if fn == nil {
			fatal(fmt.Errorf("no check %s", id))
		}
		if runOne(id, fn, p, t0) {
			code = 1
		}
		t0 = time.Now()
	}
	os.Exit(code)
}

type finding struct{ prop, key, text string }

// known reads the committed list of recorded defects.
func known() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// finding: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out = append(out, finding{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

// budget is the time one check may take before it reports what it has.
func budget() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	return 400 * time.Second
}

func runOne(id string, fn checkFn, p *absint.Program, t0 time.Time) bool {
	c := &Check{ID: id, P: p, Cov: map[string]interface{}{}, vseen: map[string]bool{}}
	debug.SetGCPercent(400)
	if p := os.Getenv("VERIF_PROF"); p != "" {
		if w, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	absint.Deadline = time.Now().Add(budget())
	func() {
		// an internal failure of the analysis is not a verdict on the code
		defer func() {
			r := recover()
			if _, ok := r.(enough); ok {
				c.Undec("stopped after %d violations", len(c.Viol))
			} else if t, ok := r.(absint.OutOfTime); ok {
				c.Undec("%s", string(t))
			} else if r != nil {
				if m, ok := r.(missing); ok {
					c.Undec("anchor not found: %s; the rule has nothing to apply to", string(m))
				} else if os.Getenv("VERIF_PANIC") == "" {
					c.Undec("the analysis failed: %v", r)
				} else {
					panic(r)
				}
			}
		}()
		fn(c)
	}()
	kn := map[string]finding{}
	for _, k := range known() {
		if k.prop == id {
			kn[k.key] = k
		}
	}
	var real []Violation
	printed := map[string]bool{}
	for _, v := range c.Viol {
		if k, ok := kn[v.Key]; ok {
			if !printed[k.key] {
				printed[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			}
			continue
		}
		real = append(real, v)
	}
	states, blocks := 0, 0
	funcs := map[string]bool{}
	for _, e := range c.allE {
		states += e.NStates
		blocks += len(e.NBlocks)
		for f := range e.Funcs {
			funcs[e.ShortName(f)] = true
		}
	}
	var fl []string
	for f := range funcs {
		if f != "init" {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	if len(c.allE) > 0 {
		c.Cov["functions_analysed"] = fl
		c.Cov["abstract_states"] = states
		c.Cov["basic_blocks_reached"] = blocks
	}
	c.Cov["obligations"] = c.Oblig
	c.Cov["discharged"] = c.Disch
	c.Cov["undecided"] = c.Undecided
	if len(c.Samples) > 0 {
		c.Cov["samples"] = c.Samples
	}
	if _, ok := c.Cov["explanation"]; !ok {
		c.Cov["explanation"] = "static analysis of the current source; see DESIGN.md"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": c.Cov,
		"assumptions": c.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(real),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	rp := filepath.Join(dir, id+"-report.txt")
	os.Remove(rp)
	for _, u := range c.Undecided {
		fmt.Printf("UNDECIDED property=%s %s\n", id, u)
	}
	if len(real) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d undecided=%d states=%d\n", id, c.Oblig, c.Disch, len(c.Undecided), states)
		return false
	}
	var rb strings.Builder
	for i, v := range real {
		fmt.Fprintf(&rb, "%d. %s\n   at:   %s\n   rule: %s\n   what: %s\n", i+1, v.Key, v.Where, v.Rule, v.What)
		for _, s := range v.Path {
			fmt.Fprintf(&rb, "      | %s\n", s)
		}
	}
	os.WriteFile(rp, []byte(rb.String()), 0o644)
	for i, v := range real {
		if i == 8 {
			fmt.Printf("… %d more in %s\n", len(real)-i, rp)
			break
		}
		fmt.Printf("%s: [%s] %s\n", v.Where, v.Key, v.What)
		n := len(v.Path)
		from := 0
		if n > 12 {
			from = n - 12
		}
		for _, s := range v.Path[from:] {
			fmt.Printf("      | %s\n", s)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return true
}
