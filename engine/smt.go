package main

import (
	"bufio"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// SMT back end: one z3 process per machine, used when a condition mentions
// integer atoms (propositional reasoning is done by the decision diagrams).
type smtProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

// smtLimit bounds the time of one query; beyond it the answer is "unknown".
const smtLimit = 30 * time.Second

type SmtStats struct {
	queries, sat, unsat, unknown, dl int // dl: decided by the difference-constraint procedure
	time                             time.Duration
}

func (x *X) smtStart() *smtProc {
	if x.smt != nil {
		return x.smt
	}
	cmd := exec.Command("z3", "-in", "-smt2", "-memory:2500")
	in, err := cmd.StdinPipe()
	if err != nil {
		x.limit("cannot start z3: %v", err)
	}
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		x.limit("cannot start z3: %v", err)
	}
	x.smt = &smtProc{cmd: cmd, in: in, out: bufio.NewReader(out)}
	io.WriteString(in, "(set-option :rlimit 30000000)\n")
	return x.smt
}

func (x *X) smtStop() {
	if x.smt != nil {
		x.smt.in.Close()
		x.smt.cmd.Process.Kill()
		x.smt.cmd.Wait()
		x.smt = nil
	}
}

type smtCtx struct {
	x     *X
	sb    strings.Builder
	nodes map[uint32]string
	atoms map[*Atom]string
	vars  map[int32]string
	ints  []string
	bools []string
	names map[string]string // smt name -> readable
	bf    boundsFn
	// long sums are left open (any value within their bounds): enough for most proofs
	opaque, cut bool
}

func (c *smtCtx) lit(v int64) string {
	if v < 0 {
		if v == minInf {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}

func (c *smtCtx) lin(l *Lin) string {
	if len(l.ts) == 0 {
		return c.lit(l.c)
	}
	var s strings.Builder
	s.WriteString("(+ " + c.lit(l.c))
	for _, t := range l.ts {
		s.WriteString(" (* " + c.lit(t.k) + " " + c.atom(t.a) + ")")
	}
	return s.String() + ")"
}

func (c *smtCtx) atom(a *Atom) string {
	if s, ok := c.atoms[a]; ok {
		return s
	}
	name := fmt.Sprintf("a%d", a.id)
	c.atoms[a] = name
	bounds := func() {
		lo, hi := c.bf(a)
		if lo != minInf {
			fmt.Fprintf(&c.sb, "(assert (<= %s %s))\n", c.lit(lo), name)
		}
		if hi != maxInf {
			fmt.Fprintf(&c.sb, "(assert (<= %s %s))\n", name, c.lit(hi))
		}
	}
	switch a.kind {
	case "ind":
		b := c.node(a.args[0])
		fmt.Fprintf(&c.sb, "(define-fun %s () Int (ite %s 1 0))\n", name, b)
	case "sum":
		if c.opaque && len(a.lin.ts) > 64 {
			c.cut = true
			fmt.Fprintf(&c.sb, "(declare-const %s Int)\n", name)
			bounds()
			break
		}
		l := c.lin(a.lin)
		fmt.Fprintf(&c.sb, "(define-fun %s () Int %s)\n", name, l)
	case "div":
		l := c.lin(a.lin)
		fmt.Fprintf(&c.sb, "(define-fun %s () Int (div %s %d))\n", name, l, a.k)
	case "tdiv":
		l := c.lin(a.lin)
		fmt.Fprintf(&c.sb, "(define-fun %s () Int (ite (>= %s 0) (div %s %d) (- (div (- %s) %d))))\n", name, l, l, a.k, l, a.k)
	case "wrap":
		n, _ := kindBits(types.BasicKind(a.k))
		if n >= 64 {
			fmt.Fprintf(&c.sb, "(declare-const %s Int)\n", name)
			bounds()
			break
		}
		l := c.lin(a.lin)
		fmt.Fprintf(&c.sb, "(define-fun %s () Int (+ %s (mod (- %s %s) %d)))\n", name, c.lit(a.lo), l, c.lit(a.lo), int64(1)<<n)
	case "mul":
		l, r := c.lin(a.lin), c.lin(a.lin2)
		fmt.Fprintf(&c.sb, "(define-fun %s () Int (* %s %s))\n", name, l, r)
	default:
		fmt.Fprintf(&c.sb, "(declare-const %s Int)\n", name)
		bounds()
		if a.kind == "var" {
			c.ints = append(c.ints, name)
			c.names[name] = a.name
		}
	}
	return name
}

func (c *smtCtx) node(n *Node) string {
	if n.isLeaf() {
		if n == c.x.m.T {
			return "true"
		}
		if n == c.x.m.F {
			return "false"
		}
		panic(engineLimit{"non-boolean condition"})
	}
	if s, ok := c.nodes[n.id]; ok {
		return s
	}
	hi, lo := c.node(n.hi), c.node(n.lo)
	v := c.variable(n.v)
	name := fmt.Sprintf("n%d", n.id)
	fmt.Fprintf(&c.sb, "(define-fun %s () Bool (ite %s %s %s))\n", name, v, hi, lo)
	c.nodes[n.id] = name
	return name
}

func (c *smtCtx) variable(v int32) string {
	if s, ok := c.vars[v]; ok {
		return s
	}
	vi := &c.x.m.vars[v]
	name := fmt.Sprintf("v%d", v)
	c.vars[v] = name
	if vi.kind == vkCmp {
		l := c.lin(vi.lin)
		fmt.Fprintf(&c.sb, "(define-fun %s () Bool (<= %s 0))\n", name, l)
		return name
	}
	if vi.isBit() {
		if i, err := strconv.Atoi(vi.name[3:]); err == nil && i < 62 && vi.args[0].isLeaf() && vi.args[0].leaf.kind == lkLin {
			l := c.lin(vi.args[0].leaf.lin)
			fmt.Fprintf(&c.sb, "(define-fun %s () Bool (= 1 (mod (div %s %d) 2)))\n", name, l, int64(1)<<uint(i))
			return name
		}
	}
	fmt.Fprintf(&c.sb, "(declare-const %s Bool)\n", name)
	c.bools = append(c.bools, name)
	c.names[name] = c.x.m.varStr(v)
	return name
}

type Model map[string]string

func (x *X) smtCheck(st *State, cond *Node, wantModel bool) (string, Model) {
	t0 := time.Now()
	defer func() { x.smtStats.time += time.Since(t0); x.smtStats.queries++ }()
	if sat, ok, am := x.dlCheck(st, cond); ok {
		x.smtStats.dl++
		if !sat {
			x.smtStats.unsat++
			return "unsat", nil
		}
		x.smtStats.sat++
		if x.wantAtoms {
			x.gotAtoms = am
		}
		md := Model{}
		for a, v := range am {
			md[a.name] = strconv.FormatInt(v, 10)
		}
		return "sat", md
	}
	return x.smtAsk(st, cond, wantModel, true, t0)
}

func (x *X) smtAsk(st *State, cond *Node, wantModel, opaque bool, t0 time.Time) (string, Model) {
	c := &smtCtx{opaque: opaque, x: x, nodes: map[uint32]string{}, atoms: map[*Atom]string{}, vars: map[int32]string{}, names: map[string]string{}, bf: staticBounds}
	if st != nil {
		c.bf = st.bound
	}
	top := c.node(cond)
	if os.Getenv("QDBG") != "" {
		fmt.Println("QQ", t0.Format("05.000"), len(c.nodes), c.sb.Len(), x.m.count, time.Since(t0))
	}
	if inv := x.invOf(cond); inv != x.m.T && x.m.sizeAtMost(inv, 20000) {
		fmt.Fprintf(&c.sb, "(assert %s)\n", c.node(inv))
	}
	p := x.smtStart()
	fmt.Fprintf(&c.sb, "(assert %s)\n(check-sat)\n", top)
	if d := os.Getenv("QDUMP"); d != "" {
		os.WriteFile(d+"/last.smt2", []byte(c.sb.String()), 0644)
	}
	io.WriteString(p.in, "(push)\n"+c.sb.String())
	x.tick()
	limit := smtLimit
	if x.roughOK {
		limit = smtLimit / 6 // feasibility of a branch
	}
	wd := time.AfterFunc(limit, func() { p.cmd.Process.Kill() })
	line, err := p.out.ReadString('\n')
	wd.Stop()
	if os.Getenv("QDBG") != "" {
		fmt.Println("QA", time.Since(t0), line, err)
	}
	if err != nil {
		x.smtStop()
		x.smtStats.unknown++
		if x.caseUnknown++; x.caseUnknown > 6 {
			x.limit("too many undecided solver queries")
		}
		return "unknown", nil
	}
	line = strings.TrimSpace(line)
	if c.cut && line != "unsat" && !x.roughOK {
		io.WriteString(p.in, "(pop)\n")
		return x.smtAsk(st, cond, wantModel, false, t0)
	}
	for strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "SMT", line)
		x.smtStop()
		return "unknown", nil
	}
	var md Model
	if line == "sat" && wantModel {
		md = Model{}
		vars := append(append([]string(nil), c.ints...), c.bools...)
		var byName map[string]*Atom
		if x.wantAtoms {
			byName = map[string]*Atom{}
			x.gotAtoms = map[*Atom]int64{}
			vars = nil
			for a, n := range c.atoms {
				byName[n] = a
				vars = append(vars, n)
			}
		}
		if len(vars) > 0 {
			io.WriteString(p.in, "(get-value ("+strings.Join(vars, " ")+"))\n(echo \"end\")\n")
			var txt strings.Builder
			for {
				l, err := p.out.ReadString('\n')
				if err != nil || strings.HasPrefix(l, "end") {
					break
				}
				txt.WriteString(l)
			}
			fs := strings.Fields(strings.NewReplacer("(", " ", ")", " ", "- ", "-").Replace(txt.String()))
			for i := 0; i+1 < len(fs); i += 2 {
				if a, ok := byName[fs[i]]; ok {
					v, _ := strconv.ParseInt(fs[i+1], 10, 64)
					x.gotAtoms[a] = v
				} else if nm, ok := c.names[fs[i]]; ok {
					md[nm] = fs[i+1]
				}
			}
		}
	}
	io.WriteString(p.in, "(pop)\n")
	switch line {
	case "sat":
		x.smtStats.sat++
	case "unsat":
		x.smtStats.unsat++
	default:
		x.smtStats.unknown++
	}
	return line, md
}

// smtSat reports whether cond may hold (true when undecided).
func (x *X) smtSat(st *State, cond *Node) bool {
	if cond == x.m.F {
		return false
	}
	if cond == x.m.T || !x.hasTheory(cond) {
		return true
	}
	key := uint64(cond.id)
	if st.bnd == nil {
		if r, ok := x.smtCache[key]; ok {
			return r
		}
	}
	if !x.m.sizeAtMost(cond, 200000) {
		return true
	}
	simple := st.bnd == nil && x.simpleTheory(cond)
	if simple {
		for i, md := range x.thModels {
			if x.evalTheory(md, cond) {
				if i > 0 {
					copy(x.thModels[1:i+1], x.thModels[:i])
					x.thModels[0] = md
				}
				x.smtCache[key] = true
				return true
			}
		}
	}
	x.wantAtoms = simple
	x.gotAtoms = nil
	if os.Getenv("QDBG") != "" {
		fmt.Println("Q", x.dbgPos.Parent(), x.dbgPos.Block().Index, simple, len(x.thModels), x.m.str(cond, 6))
	}
	x.roughOK = true
	res, _ := x.smtCheck(st, cond, simple)
	x.roughOK = false
	x.wantAtoms = false
	if x.gotAtoms != nil {
		x.thModels = append([]map[*Atom]int64{x.gotAtoms}, x.thModels...)
		if len(x.thModels) > 16 {
			x.thModels = x.thModels[:16]
		}
		x.gotAtoms = nil
	}
	r := res != "unsat"
	if st.bnd == nil {
		x.smtCache[key] = r
	}
	return r
}

// simpleTheory: every comparison of n is over free integers, so that an
// assignment of integers is a model regardless of the propositional variables.
func (x *X) simpleTheory(n *Node) bool {
	for _, v := range x.m.Support(n) {
		if _, ok := x.inv[v]; ok {
			return false
		}
		if x.m.vars[v].isBit() {
			return false
		}
		if vi := &x.m.vars[v]; vi.kind == vkCmp {
			for _, t := range vi.lin.ts {
				if t.a.kind != "var" && t.a.kind != "uf" {
					return false
				}
			}
		}
	}
	return true
}

func atomVal(md map[*Atom]int64, a *Atom) int64 {
	v, ok := md[a]
	if !ok {
		if v < a.lo {
			v = a.lo
		}
		if v > a.hi {
			v = a.hi
		}
		md[a] = v
	}
	return v
}

// evalTheory reports whether n is satisfiable under the integer assignment md.
func (x *X) evalTheory(md map[*Atom]int64, n *Node) bool {
	seen := map[uint32]bool{}
	var rec func(n *Node) bool
	rec = func(n *Node) bool {
		for !n.isLeaf() {
			if vi := &x.m.vars[n.v]; vi.kind == vkCmp {
				s := vi.lin.c
				for _, t := range vi.lin.ts {
					s += t.k * atomVal(md, t.a)
				}
				if s <= 0 {
					n = n.hi
				} else {
					n = n.lo
				}
				continue
			}
			if seen[n.id] {
				return false
			}
			seen[n.id] = true
			if rec(n.hi) {
				return true
			}
			n = n.lo
		}
		return n == x.m.T
	}
	return rec(n)
}

// ---------------------------------------------------------------- obligations

type Obl struct {
	Name   string
	N      int64 // instances discharged
	Smt    int64 // of which by the SMT solver
	Fails  []*Fail
	Failed int64 // instances not discharged
}

type Fail struct {
	Case  string            `json:"case"`
	Name  string            `json:"obligation"`
	At    int64             `json:"at"`
	Pos   string            `json:"position"`
	Model map[string]string `json:"model,omitempty"`
	Note  string            `json:"note,omitempty"`
	Open  bool              `json:"undecided,omitempty"`
}

func (x *X) obl(name string) *Obl {
	o := x.obls[name]
	if o == nil {
		o = &Obl{Name: name}
		x.obls[name] = o
	}
	return o
}

func (x *X) okObl(name string, I *Ins) { x.obl(name).N++ }

func (x *X) assertIn(st *State, cond *Node, name string, at int64, I *Ins) {
	o := x.obl(name)
	if cond == x.m.T {
		o.N++
		return
	}
	bad := x.m.AndNot(st.pc, cond)
	bad = x.simp(st, bad)
	if bad == x.m.F {
		o.N++
		return
	}
	if x.hasTheory(bad) || len(x.inv) > 0 {
		res, md := x.smtCheck(st, bad, true)
		if res == "unsat" {
			o.N++
			o.Smt++
			return
		}
		note := ""
		if res != "sat" {
			note = "solver answered " + res
		}
		f := x.failM(st, o, at, I, md, note)
		f.Open = res != "sat"
		if f.Open {
			x.nopen++
		}
		return
	}
	x.failM(st, o, at, I, x.bddModel(bad), "")
}

func (x *X) fail(st *State, bad *Node, name string, I *Ins) {
	x.failM(st, x.obl(name), -1, I, x.bddModel(x.m.And(st.pc, bad)), "")
}

func (x *X) failM(st *State, o *Obl, at int64, I *Ins, md Model, note string) *Fail {
	f := &Fail{Case: x.curCase, Name: o.Name, At: at, Model: md, Note: note}
	if I != nil {
		f.Pos = posOf(I.in)
	}
	if x.known[o.Name] == "" {
		x.nfail++
	}
	if len(o.Fails) < 5 {
		o.Fails = append(o.Fails, f)
	} else {
		o.Fails = append(o.Fails[:4], f)
	}
	o.Failed++
	return f
}

// bddModel picks one satisfying assignment.
func (x *X) bddModel(n *Node) Model {
	md := Model{}
	for !n.isLeaf() {
		if n.lo != x.m.F {
			md[x.m.varStr(n.v)] = "false"
			n = n.lo
		} else {
			md[x.m.varStr(n.v)] = "true"
			n = n.hi
		}
	}
	return md
}

func sortedKeys(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// isBit: the variable is one bit of a linear form.
func (vi *VarInfo) isBit() bool {
	return vi.kind == vkPred && strings.HasPrefix(vi.name, "bit") && len(vi.args) == 1 && vi.args[0].isLeaf() && vi.args[0].leaf.kind == lkLin
}
