package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

// Group: a package of /repo together with its contract files.
type Group struct {
	Name string // directory below contracts/ and oracle/
	Dir  string // directory below /repo
	Pkg  string // import path
}

var groups = map[string]Group{
	"qrcode":     {"qrcode", "", modPath},
	"file":       {"file", "writer/file", "github.com/yeqown/go-qrcode/writer/file"},
	"compressed": {"compressed", "writer/compressed", "github.com/yeqown/go-qrcode/writer/compressed"},
	"terminal":   {"terminal", "writer/terminal", "github.com/yeqown/go-qrcode/writer/terminal"},
	"standard":   {"standard", "writer/standard", "github.com/yeqown/go-qrcode/writer/standard"},
	"imgkit":     {"imgkit", "writer/standard/imgkit", "github.com/yeqown/go-qrcode/writer/standard/imgkit"},
	"shapes":     {"shapes", "writer/standard/shapes", "github.com/yeqown/go-qrcode/writer/standard/shapes"},
}

type Thm struct {
	Fn    string
	Group string
	Redir []string
	Cases func(tier string) [][]int64
	Hint  func(c []int64) string // hint for the concrete search
	Must  []string               // obligations that have to be reached (vacuity guard)
	Only  []string               // obligations that matter to the property (with "no panic"); default all
}

func (t *Thm) matters(obl string) bool {
	return t.Only == nil || obl == "no panic" || slices.Contains(t.Only, obl)
}

type Prop struct {
	ID      string
	Thms    []Thm
	Oracle  string // group of the concrete oracle
	Trusted []string
	Note    string
	Level   string // of the evidence, if not proof
}

func contractOverlay(dir, pkgDir string, drop map[string]bool) map[string][]byte {
	ov := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "contracts", dir, "*.go"))
	for _, f := range fs {
		if drop[filepath.Base(f)] {
			continue
		}
		b, err := os.ReadFile(f)
		if err == nil {
			ov[filepath.Join(pkgDir, "zz_verif_"+filepath.Base(f))] = b
		}
	}
	if dir != "qrcode" {
		// symbolic values of types of the library
		f := filepath.Join(verifDir, "contracts", "ext", "zz_ext.go")
		if b, err := os.ReadFile(f); err == nil && !drop["ext.go"] {
			ov[filepath.Join(repoDir, "zz_verif_ext.go")] = b
		}
	}
	return ov
}

var zzRe = regexp.MustCompile(`zz_verif_([A-Za-z0-9_]+\.go)`)

// loadGroup loads a package with its contracts. A contract file that no longer
// type-checks against the code is left out (its theorems are then unbound).
func loadGroup(g Group) (*Program, []string, error) {
	drop := map[string]bool{}
	var dropped []string
	for {
		pkgDir := filepath.Join(repoDir, g.Dir)
		P, err := loadProgram(pkgDir, contractOverlay(g.Name, pkgDir, drop), ".")
		if err != nil {
			return nil, dropped, err
		}
		if len(P.errors) == 0 {
			return P, dropped, nil
		}
		n := 0
		for _, e := range P.errors {
			if m := zzRe.FindStringSubmatch(e); m != nil && !drop[m[1]] {
				drop[m[1]] = true
				dropped = append(dropped, m[1]+": "+e)
				n++
			}
		}
		if n == 0 {
			return nil, dropped, fmt.Errorf("%s", strings.Join(P.errors, "\n"))
		}
	}
}

type thmOut struct {
	thm *Thm
	res *RunRes
	why []string // reasons for which the theorem is undecided
}

type oracleOut struct {
	ran   bool
	found bool
	input string
	what  string
	evals int
	err   string
	cmd   string
}

func runOracle(g Group, prop string, hints []string, budget int, seed string, maxN int) (o oracleOut) {
	tmp, err := os.MkdirTemp("", "verif-oracle")
	if err != nil {
		o.err = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	skip := map[string]bool{}
	// files of the oracle that use internals are left out when they no longer compile
	for try := 0; try < 4; try++ {
		ovf, pkgDir := oracleOverlay(g, tmp, skip)
		bin := filepath.Join(tmp, "oracle.test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
		c.Dir = pkgDir
		if env := oracleEnv(g, pkgDir, tmp); env != nil {
			c.Env = append(os.Environ(), env...)
		}
		out, err := c.CombinedOutput()
		if err != nil {
			ms := regexp.MustCompile(`zz_verif_(int_[a-z]+)_test\.go`).FindAllString(string(out), -1)
			n := 0
			for _, m := range ms {
				if !skip[m] {
					skip[m] = true
					n++
				}
			}
			if n > 0 {
				continue
			}
			o.err = "oracle does not build: " + string(out)
			return
		}
		o.ran = true
		c = exec.Command(bin, "-test.run", "^TestVerifOracle$", "-test.v", "-test.timeout", strconv.Itoa(budget*4+120)+"s")
		c.Dir = tmp
		c.Env = append(os.Environ(), "VERIF_PROP="+prop, "VERIF_BUDGET="+strconv.Itoa(budget), "VERIF_HINT="+strings.Join(hints, ";"), "VERIF_SEED="+seed, "VERIF_MAXN="+strconv.Itoa(maxN))
		out, err = c.CombinedOutput()
		sc := bufio.NewScanner(strings.NewReader(string(out)))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			l := sc.Text()
			if i := strings.Index(l, "FOUND-INPUT "); i >= 0 {
				o.found = true
				o.input = l[i+12:]
			}
			if i := strings.Index(l, "FOUND-WHAT "); i >= 0 {
				o.what = l[i+11:]
			}
			if i := strings.Index(l, "EVALUATIONS "); i >= 0 {
				o.evals, _ = strconv.Atoi(strings.TrimSpace(l[i+12:]))
			}
		}
		if err != nil && !o.found {
			// the process died: a crash of the code under test outside recovery
			s := string(out)
			if strings.Contains(s, "fatal error: ") || strings.Contains(s, "\npanic: ") || strings.Contains(s, "WARNING: DATA RACE") {
				o.err = "crash"
				if len(s) > 4000 {
					s = s[:4000]
				}
				o.what = s
			} else {
				o.err = err.Error()
			}
		}
		return
	}
	return
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: check PROPERTY [quick|thorough]")
		return 2
	}
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	p := propByID(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	budget := 480 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	deadline := t0.Add(budget)
	progs := map[string]*Program{}
	loadErr := map[string]string{}
	var droppedAll []string
	var outs []thmOut
	for i := range p.Thms {
		th := &p.Thms[i]
		g := groups[th.Group]
		o := thmOut{thm: th, res: newRunRes()}
		P := progs[th.Group]
		if P == nil && loadErr[th.Group] == "" {
			var dropped []string
			var err error
			P, dropped, err = loadGroup(g)
			droppedAll = append(droppedAll, dropped...)
			if err != nil {
				loadErr[th.Group] = err.Error()
			} else {
				progs[th.Group] = P
			}
		}
		if P == nil {
			o.why = append(o.why, "the package does not load: "+loadErr[th.Group])
			outs = append(outs, o)
			continue
		}
		T := &Theorem{Fn: th.Fn, Pkg: g.Pkg, Redir: expand(th.Redir), Cases: th.Cases(tier), Known: knownFindings(id)}
		fmt.Printf("%s: %s: %d cases\n", id, th.Fn, len(T.Cases))
		R := runTheorem(P, T, runtime.NumCPU(), os.Getenv("VERIF_VERBOSE") != "", deadline)
		o.res = R
		for _, u := range R.Unbound {
			o.why = append(o.why, "not bound to the code: "+u)
		}
		if len(R.Unbound) == 0 {
			for l, cs := range R.Limits {
				o.why = append(o.why, fmt.Sprintf("%s (%d cases, e.g. %s)", l, len(cs), cs[0]))
			}
			if R.Done < R.Cases {
				o.why = append(o.why, fmt.Sprintf("time limit: %d of %d cases run", R.Done, R.Cases))
			}
			used := map[string]bool{}
			for f := range R.SumUsed {
				used[f] = true
			}
			for _, r := range T.Redir {
				t := strings.SplitN(r, "=", 2)[0]
				if !used[t] && !strings.HasPrefix(t, "?") {
					o.why = append(o.why, "contract not exercised: "+t)
				}
			}
			for _, m := range th.Must {
				min := int64(1)
				if i := strings.LastIndex(m, "#"); i >= 0 {
					min, _ = strconv.ParseInt(m[i+1:], 10, 64)
					m = m[:i]
				}
				if ob := R.Obls[m]; ob == nil || ob.N+ob.Failed < min {
					o.why = append(o.why, "obligation not reached: "+m)
				}
			}
		}
		outs = append(outs, o)
		if o.refutedTrusted(knownFindings(id)) && os.Getenv("VERIF_ALL") == "" {
			break // the verdict cannot change any more
		}
	}
	// verdict
	known := knownFindings(id)
	type refuted struct {
		Theorem string  `json:"theorem"`
		Obl     string  `json:"obligation"`
		Fails   []*Fail `json:"failures"`
	}
	var refs []refuted
	var undecided []string
	var hints []string
	for _, o := range outs {
		trust := true
		for _, w := range o.why {
			undecided = append(undecided, o.thm.Fn+": "+w)
			if strings.HasPrefix(w, "contract not exercised") || strings.HasPrefix(w, "not bound") {
				trust = false
			}
		}
		for _, n := range o.res.names() {
			ob := o.res.Obls[n]
			if !o.thm.matters(n) {
				continue
			}
			var fs []*Fail
			for _, f := range ob.Fails {
				if f.Open {
					undecided = append(undecided, fmt.Sprintf("%s: %s at %s: %s", o.thm.Fn, n, f.Case, f.Note))
				} else {
					fs = append(fs, f)
				}
			}
			if line := known[n]; len(fs) > 0 && line != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, line)
				continue
			}
			if len(fs) > 0 {
				if !trust {
					undecided = append(undecided, fmt.Sprintf("%s: %s fails, but a contract it relies on is not in use", o.thm.Fn, n))
					continue
				}
				if len(fs) > 8 {
					fs = fs[:8]
				}
				refs = append(refs, refuted{o.thm.Fn, n, fs})
				if o.thm.Hint != nil {
					for _, f := range fs {
						if h := o.thm.Hint(append(caseArgs(f.Case), int64(f.At))); h != "" && len(hints) < 40 {
							hints = append(hints, h)
						}
					}
				}
			}
		}
	}
	var orc oracleOut
	need := len(refs) > 0 || len(undecided) > 0 || tier == "thorough" || len(p.Thms) == 0
	if p.Oracle != "" {
		b := 60
		if len(refs) == 0 {
			b = 90
		}
		if !need {
			b = 5 // sanity run: a wrong contract or verifier would show here
		}
		if tier == "thorough" {
			b = 600
		}
		orc = runOracle(groups[p.Oracle], p.ID, hints, b, seed, 0)
	}
	viol := 0
	if len(refs) > 0 || orc.found || orc.err == "crash" {
		viol = 1
	}
	writeEvidence(p, tier, seed, outs, undecided, droppedAll, orc, viol, time.Since(t0))
	for _, o := range outs {
		fmt.Printf("%s: %s: %d/%d cases, %.1fs\n", id, o.thm.Fn, o.res.Done, o.res.Cases, o.res.Wall.Seconds())
		for _, n := range o.res.names() {
			ob := o.res.Obls[n]
			fmt.Printf("    %-90s %9d discharged %6d not\n", n, ob.N, ob.Failed)
		}
	}
	for _, u := range undecided {
		if len(u) > 400 {
			u = u[:400]
		}
		fmt.Println("UNDECIDED", u)
	}
	if orc.ran {
		fmt.Printf("%s: concrete oracle: %d inputs evaluated, violation found: %v %s\n", id, orc.evals, orc.found, orc.what)
	} else if need && orc.err != "" {
		fmt.Println("concrete oracle:", orc.err)
	}
	if viol == 0 {
		if need && len(undecided) > 0 && !orc.ran {
			// neither the proof nor the stand-in could be run
			if len(loadErr) > 0 {
				fmt.Println("error: nothing could be checked")
				return 2
			}
		}
		return 0
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, id+".json")
	rep := map[string]interface{}{
		"property": id, "refuted": refs, "undecided": undecided,
		"failing_input": json.RawMessage(orNull(orc.input)), "what": orc.what,
	}
	if orc.found {
		rep["replay_cmd"] = "cd /verif && ./replay replays/" + id + ".json"
	}
	j, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, j, 0644)
	for _, r := range refs {
		f := r.Fails[0]
		fmt.Printf("REFUTED %s: %s (%s, at %d, %s) %s\n", r.Theorem, r.Obl, f.Case, f.At, f.Pos, f.Note)
	}
	tail := ""
	if !orc.found && orc.err != "crash" {
		tail = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, tail)
	return 1
}

// knownFindings: obligation -> description, from the committed list
func knownFindings(id string) map[string]string {
	r := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + id + " obligation=\""
		if strings.HasPrefix(l, p) {
			if f := strings.SplitN(l[len(p):], "\" ", 2); len(f) == 2 {
				r[f[0]] = f[1]
			}
		}
	}
	return r
}

func orNull(s string) string {
	if s == "" {
		return "null"
	}
	return s
}

func caseArgs(key string) []int64 {
	i := strings.Index(key, "[")
	if i < 0 {
		return nil
	}
	var r []int64
	for _, f := range strings.Fields(strings.TrimSuffix(key[i+1:], "]")) {
		n, _ := strconv.ParseInt(f, 10, 64)
		r = append(r, n)
	}
	return r
}

func expand(rs []string) []string {
	var out []string
	for _, r := range rs {
		out = append(out, strings.ReplaceAll(r, "@", modPath))
	}
	return out
}

func writeEvidence(p *Prop, tier, seed string, outs []thmOut, undecided, dropped []string, orc oracleOut, viol int, wall time.Duration) {
	var obls, disc, smt int64
	var dl, z3 int
	var solver time.Duration
	cases, done := 0, 0
	names := map[string]map[string]int64{}
	fns := map[string]int64{}
	sums := map[string]int{}
	bounded := map[string]bool{}
	assumes := map[string]bool{}
	var thms, findings []string
	known := knownFindings(p.ID)
	for _, o := range outs {
		thms = append(thms, o.thm.Fn)
		cases += o.res.Cases
		done += o.res.Done
		solver += o.res.Smt.time
		dl += o.res.Smt.dl
		z3 += o.res.Smt.queries - o.res.Smt.dl
		for n, ob := range o.res.Obls {
			if !o.thm.matters(n) {
				continue
			}
			if known[n] != "" && ob.Failed > 0 {
				findings = append(findings, fmt.Sprintf("%s: %s (%s): %s; %d obligations hold, %d do not", o.thm.Fn, n, ob.Fails[0].Case, known[n], ob.N, ob.Failed))
				continue
			}
			obls += ob.N + ob.Failed
			disc += ob.N
			smt += ob.Smt
			k := o.thm.Fn + ": " + n
			names[k] = map[string]int64{"discharged": ob.N, "by_solver": ob.Smt, "not_discharged": ob.Failed}
		}
		for f, n := range o.res.FnUsed {
			if strings.Contains(f, "yeqown") && !strings.Contains(f, ".v_") && !strings.Contains(f, ".spec_") && !strings.Contains(f, ".thm_") && !strings.Contains(f, ".sum_") {
				fns[f] += n
			}
		}
		for f, n := range o.res.SumUsed {
			sums[f] += n
		}
		for b := range o.res.Bounded {
			bounded[b] = true
		}
		for a := range o.res.Assumes {
			assumes[a] = true
		}
		if o.res.Done < o.res.Cases || len(o.res.Unbound) > 0 {
			obls++ // at least one obligation stays open
		}
	}
	sd, _ := strconv.Atoi(seed)
	trusted := append([]string{
		"the verifier itself (/verif/engine: symbolic execution over go/ssa, decision diagrams, difference-constraint procedure) and z3",
		"integers are 64-bit machine integers executed exactly when concrete and mathematical when symbolic",
	}, p.Trusted...)
	cov := map[string]interface{}{
		"obligations": obls, "discharged": disc,
		"checker_cmd":  fmt.Sprintf("./check %s %s", p.ID, tier),
		"trusted_base": trusted,
		"theorems":     thms, "cases": cases, "cases_completed": done,
		"obligations_by_name":            names,
		"discharged_by_decision_diagram": disc - smt, "discharged_by_solver": smt,
		"solver_queries_difference_constraints": dl, "solver_queries_z3": z3,
		"solver_seconds":                 solver.Seconds(),
		"functions_executed_from_source": fns, "calls_replaced_by_contract": sums,
	}
	if len(findings) > 0 {
		cov["known_findings_not_counted"] = findings
	}
	if len(undecided) > 0 {
		cov["undecided"] = undecided
	}
	if len(dropped) > 0 {
		cov["contract_files_not_bound"] = dropped
	}
	if len(bounded) > 0 {
		cov["bounded_parts_not_counted_as_proved"] = keys(bounded)
	}
	if orc.ran {
		cov["concrete_oracle"] = map[string]interface{}{"bounded": true, "evaluations": orc.evals, "violation_found": orc.found}
	}
	if p.Note != "" {
		cov["note"] = p.Note
	}
	level := "proof"
	if p.Level != "" {
		level = p.Level
		cov["explanation"] = p.Note
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": sd, "level": level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": append(append([]string{}, trusted...), keys(assumes)...),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(j, '\n'), 0644)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// trusted: every contract the theorem relies on was bound and in use.
func (o *thmOut) trusted() bool {
	for _, w := range o.why {
		if strings.HasPrefix(w, "contract not exercised") || strings.HasPrefix(w, "not bound") {
			return false
		}
	}
	return true
}

// refutedTrusted: some obligation of the theorem is refuted by the solver.
func (o *thmOut) refutedTrusted(known map[string]string) bool {
	if !o.trusted() {
		return false
	}
	for _, n := range o.res.names() {
		if !o.thm.matters(n) || known[n] != "" {
			continue
		}
		for _, f := range o.res.Obls[n].Fails {
			if !f.Open {
				return true
			}
		}
	}
	return false
}
