package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/npillmayer/uax"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// Prog is the loaded program.
type Prog struct {
	Pkgs map[string]*packages.Package // by path relative to the module ("" = root)
	SSA  *ssa.Program
	SPkg map[string]*ssa.Package
	Fset *token.FileSet
}

// uax14's class table is a generated file which is not part of the
// repository; the class constants are supplied by the analysis so that the
// rest of the package can be type-checked.
func uax14Overlay() map[string][]byte {
	p := filepath.Join(repoDir, "uax14", "uax14classes.go")
	if _, err := os.Stat(p); err == nil {
		return nil
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "checker", "data", "uax14classes.go.txt"))
	if err != nil {
		return nil
	}
	return map[string][]byte{p: b}
}

func load(tests bool) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: uax14Overlay(),
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
		Tests:   tests,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Pkgs: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BareInits*0)
	prog.Build()
	p.SSA = prog
	for i, pk := range ps {
		for _, e := range pk.Errors {
			if pk.Name == "uax14" {
				continue // its class table is not part of the repository
			}
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.Pkgs[rel] = pk
		p.SPkg[rel] = spkgs[i]
		p.Fset = pk.Fset
	}
	return p, nil
}

// Func finds a package-level function or a method "(T).m".
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		return p.Method(t.Type(), mn)
	}
	return sp.Func(name)
}

// Method finds the declared method of a named type (pointer or value receiver).
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.SSA.MethodValue(ms.At(i))
				if f != nil && f.Synthetic != "" {
					// wrapper: prefer the declared function
					if fo, ok := ms.At(i).Obj().(*types.Func); ok {
						if d := p.SSA.FuncValue(fo); d != nil {
							return d
						}
					}
				}
				return f
			}
		}
	}
	return nil
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- reporting ---------------------------------------------------------

type Finding struct {
	Key  string // stable identity: rule + construct
	Pos  string
	Msg  string
	Path []string
}

type Report struct {
	Prop      string
	Tier      string
	start     time.Time
	Oblig     int
	Disch     int
	Findings  []Finding
	Undec     []Finding
	Count     map[string]int
	Samples   []string
	Functions map[string]bool
	Rule      string
	Assume    []string
	Notes     []string
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), Count: map[string]int{}, Functions: map[string]bool{}}
}

// Check records an obligation.
func (r *Report) Check(ok bool, key, pos, format string, a ...interface{}) bool {
	r.Oblig++
	if ok {
		r.Disch++
		return true
	}
	r.Findings = append(r.Findings, Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)})
	return false
}
func (r *Report) Fail(key, pos, format string, a ...interface{}) {
	r.Check(false, key, pos, format, a...)
}

// Undecided records a part of the program the analysis cannot decide (an
// unsupported construct or a limit). It is no violation: nothing is claimed
// about that part, the run says so and the evidence counts it.
func (r *Report) Undecided(key, pos, format string, a ...interface{}) {
	r.Oblig++
	r.Undec = append(r.Undec, Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}
func (r *Report) N(what string, n int) { r.Count[what] += n }
func (r *Report) Sample(format string, a ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}
func (r *Report) Func(names ...string) {
	for _, n := range names {
		r.Functions[n] = true
	}
}
func (r *Report) Engine(ex *Engine) {
	for n := range ex.Inlined {
		r.Functions[n] = true
	}
	r.Count["abstract steps"] += ex.steps
	r.Count["abstract paths"] += ex.outs
}

func loadKnown() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key=KEY :: text
		rest := strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) == 2 {
			m[strings.TrimSpace(parts[0])] = strings.TrimSpace(parts[1])
		}
	}
	return m
}

// Finish prints the outcome, writes the evidence file and returns the exit status.
func (r *Report) Finish() int {
	known := loadKnown()
	viol := []Finding{}
	seen := map[string]bool{}
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	for _, f := range r.Findings {
		if seen[f.Key+f.Msg] {
			continue
		}
		seen[f.Key+f.Msg] = true
		if t, ok := known["property="+r.Prop+" key="+f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.Prop, t, f.Key, f.Pos)
			r.Disch++
			continue
		}
		viol = append(viol, f)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	rp := filepath.Join(verifDir, "evidence", r.Prop+".violations.txt")
	os.Remove(rp)
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", f.Key, f.Pos, f.Msg)
			for _, p := range f.Path {
				fmt.Fprintf(&b, "    %s\n", p)
			}
		}
		os.WriteFile(rp, []byte(b.String()), 0o644)
	}
	tier := r.Tier
	if tier == "" {
		tier = "quick"
	}
	meta := propMeta[r.Prop]
	var fns []string
	for f := range r.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	undec := []string{}
	for _, f := range r.Undec {
		undec = append(undec, f.Pos+": "+f.Key+": "+f.Msg)
	}
	level := "other"
	if meta.level != "" {
		level = meta.level
	}
	cov := map[string]interface{}{
		"explanation":        meta.rule,
		"obligations":        r.Oblig,
		"discharged":         r.Disch,
		"functions_analysed": len(fns),
		"functions":          fns,
		"counts":             r.Count,
		"undecided":          undec,
		"samples":            r.Samples,
		"checker_cmd":        "bash /verif/run.sh " + r.Prop,
		"trusted_base":       []string{"go/types and golang.org/x/tools/go/ssa (source to SSA)", "the abstract interpreter and rules in /verif/checker", "the reference data in /verif/checker/data"},
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append(append([]string{}, meta.assume...), r.Assume...),
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for i, f := range r.Undec {
		if i < 10 {
			fmt.Printf("UNDECIDED: property=%s %s at %s: %s\n", r.Prop, f.Key, f.Pos, f.Msg)
		}
	}
	fmt.Printf("property %s: %d obligations, %d discharged, %d functions analysed, %d violations\n", r.Prop, r.Oblig, r.Disch, len(fns), len(viol))
	if len(viol) == 0 {
		return 0
	}
	for i, f := range viol {
		if i >= 25 {
			fmt.Printf("  ... and %d more\n", len(viol)-25)
			break
		}
		fmt.Printf("  %s: %s: %s\n", f.Pos, f.Key, f.Msg)
		for _, p := range f.Path {
			fmt.Printf("      %s\n", p)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}

type meta struct {
	rule   string
	level  string
	assume []string
	run    func(p *Prog, r *Report)
}

var propMeta = map[string]*meta{}
