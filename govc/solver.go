package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

var fieldQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

// axiomsFor instantiates the theory axioms for the ground terms of a query.
func (ex *Exec) axiomsFor(ts []*Term) []*Term {
	var ax []*Term
	done := map[*Term]bool{}
	level := map[*Term]int{}
	work := ts
	curLevel := 0
	selOf := map[*Term][]*Term{} // bytesof arg -> index terms used
	addAx := func(t *Term, acc *[]*Term) {
		if t == True {
			return
		}
		ax = append(ax, t)
		*acc = append(*acc, t)
	}
	var fixTerms [][2]*Term
	fixDone := map[[2]*Term]bool{}
	var lits []*Term // constant-length strings, and the lengths they may be split at
	headLens := map[int]bool{}
	var lens []int
	litDone := map[string]bool{}
	for len(work) > 0 && curLevel < 12 {
		var nw []*Term
		var recs []*Term
		walkTerms(work, func(t *Term) {
			if done[t] || t.free {
				return
			}
			done[t] = true
			if t.Op == OSelect && t.Args[0].Op == OApp && t.Args[0].Name == "bytesof" {
				a := t.Args[0].Args[0]
				selOf[a] = append(selOf[a], t.Args[1])
			}
			if t.Op == OEq && t.Args[0].S == StrSort {
				for k := 0; k < 2; k++ {
					x, y := t.Args[k], t.Args[1-k]
					if x.Op == OApp && strings.HasPrefix(x.Name, "lit$") && len(x.Args) == 1 {
						for _, i := range selOf[y] {
							if c, ok := constIdx(i); ok && c >= 0 && 8*c < x.Args[0].S.W {
								addAx(Implies(t, Eq(Select(App("bytesof", ArrSort(BV(64), BV(8)), y), i), Extract(x.Args[0], 8*c+7, 8*c))), &nw)
							}
						}
					}
				}
			}
			if t.S == StrSort && t.Op == OApp && (t.Name == "cat" || t.Name == "sub" || t.Name == "strof" || strings.HasPrefix(t.Name, "lit$")) {
				l := strLen(t)
				if t.Name == "strof" {
					l = t.Args[2]
				}
				addAx(mk(Term{Op: OEq, S: BoolSort, Args: []*Term{App("strlen", BV(64), t), l}}), &nw)
				if t.Name == "strof" {
					addAx(Implies(Eq(l, Int(0)), mk(Term{Op: OEq, S: BoolSort, Args: []*Term{t, litTerm(nil)}})), &nw)
				}
				if t.Name == "cat" {
					for k := 0; k < 2; k++ {
						addAx(Implies(Eq(t.Args[k], litTerm(nil)), mk(Term{Op: OEq, S: BoolSort, Args: []*Term{t, t.Args[1-k]}})), &nw)
					}
				}
			}
			if t.Op != OApp {
				return
			}
			switch {
			case t.Name == "strlen":
				addAx(rawUle(t, BVU(1<<40, 64)), &nw)
				if a := t.Args[0]; a.Op == OVar || a.Op == OSelect {
					// only the empty string has length 0
					addAx(Implies(Eq(t, Int(0)), mk(Term{Op: OEq, S: BoolSort, Args: []*Term{a, litTerm(nil)}})), &nw)
				}
			case strings.HasPrefix(t.Name, "lit$") && len(t.Args) == 1:
				addAx(Eq(App("un"+t.Name, t.Args[0].S, t), t.Args[0]), &nw)
				lits = append(lits, t)
			case t.Name == "cat":
				l := strLen(t.Args[0])
				if n, ok := constIdx(l); ok && n > 0 && !headLens[n] {
					headLens[n] = true
					lens = append(lens, n)
				}
				addAx(Eq(App("tl", StrSort, l, t), t.Args[1]), &nw)
				addAx(Eq(App("hd", StrSort, l, t), t.Args[0]), &nw)
			case t.Name == "sub":
				if isZero(t.Args[1]) {
					addAx(Implies(Eq(t.Args[2], strLen(t.Args[0])), mk(Term{Op: OEq, S: BoolSort, Args: []*Term{t, t.Args[0]}})), &nw)
				}
				same := func(y *Term) *Term { return mk(Term{Op: OEq, S: BoolSort, Args: []*Term{t, y}}) }
				lo, hi := t.Args[1], t.Args[2]
				addAx(Implies(Eq(lo, hi), same(litTerm(nil))), &nw)
				if a := t.Args[0]; a.Op == OApp && a.Name == "cat" {
					n := strLen(a.Args[0])
					if isZero(lo) {
						addAx(Implies(Eq(hi, n), same(a.Args[0])), &nw)
						addAx(Implies(And(Ult(n, hi), Ule(hi, strLen(a))), same(App("cat", StrSort, a.Args[0], App("sub", StrSort, a.Args[1], Int(0), Sub(hi, n))))), &nw)
					}
					addAx(Implies(And(Ule(n, lo), Ule(lo, hi), Ule(hi, strLen(a))), same(App("sub", StrSort, a.Args[1], Sub(lo, n), Sub(hi, n)))), &nw)
				} else if a.Op == OApp && a.Name == "sub" {
					addAx(Implies(And(Ule(lo, hi), Ule(hi, strLen(a)), Ule(a.Args[1], a.Args[2])), same(App("sub", StrSort, a.Args[0], Add(a.Args[1], lo), Add(a.Args[1], hi)))), &nw)
				}
			case strings.HasPrefix(t.Name, "fix$"):
				n := t.S.W / 8
				a := t.Args[0]
				fixed := Eq(App("strlen", BV(64), a), Int(int64(n)))
				if l := strLen(a); l.Op != OApp || l.Name != "strlen" {
					fixed = Eq(l, Int(int64(n)))
				}
				addAx(Implies(fixed, mk(Term{Op: OEq, S: BoolSort, Args: []*Term{a, App(fmt.Sprintf("lit$%d", n), StrSort, t)}})), &nw)
				fixTerms = append(fixTerms, [2]*Term{t, fixed})
			case strings.HasPrefix(t.Name, "pos"):
				addAx(Ult(t, BVC(fieldQ, 256)), &nw)
				if ex.cur != nil && ex.cur.Inj {
					var in []*Term
					for _, a := range t.Args {
						if a.S == BV(256) {
							in = append(in, Ult(a, BVC(fieldQ, 256)))
						}
					}
					for i, a := range t.Args {
						addAx(Implies(And(in...), Eq(App(fmt.Sprintf("un%s_%d", t.Name, i), a.S, t), a)), &nw)
					}
					addAx(Not(Eq(t, BVI(0, 256))), &nw)
				}
			case strings.HasPrefix(t.Name, "unpos6_"):
				addAx(Ult(t, BVC(fieldQ, 256)), &nw)
			case strings.HasPrefix(t.Name, "inj$"):
				for i, a := range t.Args {
					addAx(Eq(App(fmt.Sprintf("un%s_%d", t.Name, i), a.S, t), a), &nw)
				}
			case t.Name == "minle" || t.Name == "minbe":
				addAx(Ule(App("strlen", BV(64), t), Int(32)), &nw)
			}
			if isRecName(t.Name) && (ex.onlyRecs == nil || ex.onlyRecs[t.Name[:strings.LastIndex(t.Name, "#")]]) {
				if level[t] < ex.recFuel {
					recs = append(recs, t)
				}
			}
			if f, ok := userAxioms[t.Name]; ok {
				for _, a := range f(t) {
					addAx(a, &nw)
				}
			}
		})
		for _, ft := range fixTerms {
			t := ft[0]
			a := t.Args[0]
			for _, i := range selOf[a] {
				if c, ok := constIdx(i); ok && c >= 0 && c < t.S.W/8 && !fixDone[[2]*Term{t, i}] {
					fixDone[[2]*Term{t, i}] = true
					addAx(Implies(ft[1], Eq(Select(App("bytesof", ArrSort(BV(64), BV(8)), a), i), Extract(t, 8*c+7, 8*c))), &nw)
				}
			}
		}
		for _, t := range lits {
			w := t.Args[0].S.W / 8
			for _, n := range lens {
				k := fmt.Sprintf("%d %d", t.id, n)
				if n >= w || w > 64 || litDone[k] {
					continue
				}
				litDone[k] = true
				addAx(Eq(App("hd", StrSort, Int(int64(n)), t), App(fmt.Sprintf("lit$%d", n), StrSort, Extract(t.Args[0], 8*n-1, 0))), &nw)
				addAx(Eq(App("tl", StrSort, Int(int64(n)), t), App(fmt.Sprintf("lit$%d", w-n), StrSort, Extract(t.Args[0], 8*w-1, 8*n))), &nw)
			}
		}
		for _, r := range recs {
			for _, u := range ex.unfold(r) {
				ax = append(ax, u)
				nw = append(nw, u)
				walkTerms([]*Term{u}, func(x *Term) {
					if x != r && x.Op == OApp && isRecName(x.Name) && !done[x] {
						if _, ok := level[x]; !ok {
							level[x] = level[r] + 1
						}
					}
				})
			}
		}
		work = nw
		curLevel++
	}
	return ax
}

var userAxioms = map[string]func(t *Term) []*Term{}

func isRecName(n string) bool { return strings.HasPrefix(n, "rec$") }

// script prints assertions as an SMT-LIB query.
func script(asserts []*Term, model bool) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	decls(asserts, map[string]bool{}, &sb)
	refs := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OForall {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
		order = append(order, t)
	}
	for _, t := range asserts {
		w(t)
	}
	names := map[*Term]string{}
	for _, t := range order {
		if len(t.Args) > 0 && refs[t] > 1 && !boundInside(t) {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S, printNode(t, func(a *Term) string { return printTerm(a, names) }))
			names[t] = n
		}
	}
	for _, t := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", printTerm(t, names))
	}
	return sb.String()
}

func boundInside(t *Term) bool { return t.free }

func decls(ts []*Term, done map[string]bool, sb *strings.Builder) {
	sorts := func(s *Sort) {}
	sorts = func(s *Sort) {
		switch s.K {
		case SU:
			if !done["sort "+s.Name] {
				done["sort "+s.Name] = true
				fmt.Fprintf(sb, "(declare-sort %s 0)\n", s.Name)
			}
		case SArr:
			sorts(s.Key)
			sorts(s.Val)
		}
	}
	quantified := map[*Term]bool{}
	walkTerms(ts, func(t *Term) {
		if t.Op == OForall {
			quantified[t.Args[0]] = true
		}
	})
	walkTerms(ts, func(t *Term) {
		switch t.Op {
		case OVar:
			sorts(t.S)
			if !done[t.Name] {
				done[t.Name] = true
				fmt.Fprintf(sb, "(declare-fun %s () %s)\n", smtName(t.Name), t.S)
			}
		case OBound:
			sorts(t.S)
			if !quantified[t] && !done[t.Name] {
				done[t.Name] = true
				fmt.Fprintf(sb, "(declare-fun %s () %s)\n", smtName(t.Name), t.S)
			}
		case OApp:
			sorts(t.S)
			if !done[t.Name] {
				done[t.Name] = true
				fmt.Fprintf(sb, "(declare-fun %s (", smtName(t.Name))
				for i, a := range t.Args {
					if i > 0 {
						sb.WriteString(" ")
					}
					sb.WriteString(a.S.String())
				}
				fmt.Fprintf(sb, ") %s)\n", t.S)
			}
		default:
			sorts(t.S)
		}
	})
}

// ---- incremental solver used for feasibility

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	done  map[string]bool
	cache map[[2]int]bool
	N     int
	Secs  float64
	tmo   int
}

var feasLog = os.Getenv("GOVC_FEAS") != ""

func newSolver() *Solver {
	s := &Solver{cache: map[[2]int]bool{}, tmo: 400}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(toolPath("z3-new"), "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.in, s.out = in, bufio.NewReader(out)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.done = map[string]bool{}
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.tmo)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Sat reports whether pc and c may be satisfiable (unknown counts as satisfiable).
func (s *Solver) Sat(pc []*Term, c *Term) bool {
	key := [2]int{App("pc", USort("PC"), pc...).id, c.id}
	if r, ok := s.cache[key]; ok {
		return r
	}
	t0 := time.Now()
	var sb strings.Builder
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	emit := func(t *Term) {
		var extra []*Term
		walkTerms([]*Term{t}, func(x *Term) {
			if x.Op == OApp && x.Name == "strlen" && !x.free {
				extra = append(extra, rawUle(x, BVU(1<<40, 64)))
			}
			if x.Op == OApp && strings.HasPrefix(x.Name, "pos") && !x.free {
				extra = append(extra, Ult(x, BVC(fieldQ, 256)))
			}
		})
		if hasForall(t, map[*Term]bool{}) {
			return // quantified facts only slow the reachability checks down
		}
		all := append(extra, t)
		decls(all, s.done, &sb)
		for _, e := range all {
			fmt.Fprintf(&sb, "(assert %s)\n", letPrint(e))
		}
	}
	for _, t := range pc[n:] {
		sb.WriteString("(push 1)\n")
		emit(t)
		s.stack = append(s.stack, t)
	}
	sb.WriteString("(push 1)\n")
	emit(c)
	sb.WriteString("(check-sat)\n(pop 1)\n")
	io.WriteString(s.in, sb.String())
	res := true
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.close()
			s.start()
			break
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unknown" {
			break
		}
		if line == "unsat" {
			res = false
			break
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "feasibility solver:", line)
			if strings.Contains(line, "timeout") || strings.Contains(line, "canceled") {
				continue
			}
		}
	}
	s.N++
	s.Secs += time.Since(t0).Seconds()
	if feasLog {
		fmt.Fprintf(os.Stderr, "feas %.3f pc %d kept %d text %d res %v goal %s\n", time.Since(t0).Seconds(), len(pc), n, sb.Len(), res, trunc(c.String(), 200))
	}
	s.cache[key] = res
	return res
}

// letPrint prints a term with sharing through nested lets when it is large.
func letPrint(t *Term) string {
	refs := map[*Term]int{}
	var order []*Term
	var w func(t *Term)
	w = func(t *Term) {
		refs[t]++
		if refs[t] > 1 || t.Op == OForall {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
		order = append(order, t)
	}
	w(t)
	names := map[*Term]string{}
	var sb strings.Builder
	n := 0
	for _, x := range order {
		if x != t && len(x.Args) > 0 && refs[x] > 1 && !x.free {
			nm := fmt.Sprintf("l%d", x.id)
			fmt.Fprintf(&sb, "(let ((%s %s)) ", nm, printNode(x, func(a *Term) string { return printTerm(a, names) }))
			names[x] = nm
			n++
		}
	}
	sb.WriteString(printNode(t, func(a *Term) string { return printTerm(a, names) }))
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

// ---- one-shot portfolio

func toolPath(n string) string {
	if p, err := exec.LookPath(n); err == nil {
		return p
	}
	return "/usr/local/bin/" + n
}

type solverSpec struct {
	name string
	args func(tmo int, file string) []string
}

var portfolio = []solverSpec{
	{"z3-new", func(t int, f string) []string { return []string{fmt.Sprintf("-T:%d", t), f} }},
	{"cvc5", func(t int, f string) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", t*1000), f}
	}},
	{"z3", func(t int, f string) []string { return []string{fmt.Sprintf("-T:%d", t), f} }},
}

func runOne(ctx context.Context, sp solverSpec, tmo int, file string) (string, string) {
	// the limit counts processor time, so that a busy machine does not change the verdict
	cctx, cancel := context.WithTimeout(ctx, time.Duration(3*tmo+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, "/bin/sh", append([]string{"-c", "ulimit -t \"$0\"; exec \"$@\"", fmt.Sprint(tmo + 1), toolPath(sp.name)}, sp.args(3*tmo, file)...)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l, s
		}
	}
	return "error", s
}

// solve decides satisfiability of the assertions. Returns sat/unsat/unknown, backend and model text.
func solve(asserts []*Term, tmo1, tmo2 int, tmpdir string, id int) (string, string, string) {
	txt := script(asserts, false) + "(check-sat)\n"
	return solveText(txt, tmo1, tmo2, tmpdir, id)
}

func solveText(txt string, tmo1, tmo2 int, tmpdir string, id int) (string, string, string) {
	file := fmt.Sprintf("%s/vc%d.smt2", tmpdir, id)
	os.WriteFile(file, []byte(txt), 0644)
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(file)
	}
	t0 := time.Now()
	if d := os.Getenv("GOVC_SLOW"); d != "" {
		defer func() {
			if dt := time.Since(t0).Seconds(); dt > 2 {
				os.WriteFile(fmt.Sprintf("%s/%06.1f_%d.smt2", d, dt, id), []byte(txt), 0644)
			}
		}()
	}
	r, out := runOne(context.Background(), portfolio[0], tmo1, file)
	if r == "unsat" || r == "sat" {
		return r, portfolio[0].name, out
	}
	if r == "error" && strings.Contains(out, "(error") {
		return "error", portfolio[0].name, out
	}
	if tmo2 <= 0 {
		return "unknown", portfolio[0].name, out
	}
	type res struct{ r, n, o string }
	ch := make(chan res, len(portfolio))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, sp := range portfolio {
		sp := sp
		go func() {
			r, o := runOne(ctx, sp, tmo2, file)
			ch <- res{r, sp.name, o}
		}()
	}
	last := res{"unknown", "", out}
	for range portfolio {
		x := <-ch
		if x.r == "unsat" || x.r == "sat" {
			return x.r, x.n, x.o
		}
		last = x
	}
	return "unknown", last.n, last.o
}

// rawUle states a bound without the simplifier using that very bound.
func rawUle(a, b *Term) *Term {
	return Not(mk(Term{Op: OUlt, S: BoolSort, Args: []*Term{b, a}}))
}

// skolem replaces existentially quantified variables by constants and adds instances of the
// universally quantified hypotheses at those constants, so that their terms get axioms.
func skolem(as []*Term) ([]*Term, *Term) {
	last := as[len(as)-1]
	any := false
	for _, t := range as {
		if hasForall(t, map[*Term]bool{}) {
			any = true
		}
	}
	if !any {
		return as, last
	}
	var consts []*Term
	seen := map[*Term]bool{}
	var conv func(t *Term, pos bool) *Term
	conv = func(t *Term, pos bool) *Term {
		switch t.Op {
		case ONot:
			return Not(conv(t.Args[0], !pos))
		case OAnd, OOr:
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = conv(a, pos)
			}
			if t.Op == OAnd {
				return And(args...)
			}
			return Or(args...)
		case OForall:
			if pos || t.free {
				return t
			}
			bv := t.Args[0]
			c := mk(Term{Op: OVar, S: bv.S, Name: fmt.Sprintf("sk!%d", t.id)})
			if !seen[c] {
				seen[c] = true
				consts = append(consts, c)
			}
			return conv(subst(t.Args[1], map[*Term]*Term{bv: c}, map[*Term]*Term{}), pos)
		}
		return t
	}
	out := make([]*Term, len(as))
	for i, t := range as {
		out[i] = conv(t, true)
	}
	last = out[len(out)-1]
	if len(consts) == 0 || len(consts) > 8 {
		return out, last
	}
	var inst func(t *Term)
	extra := []*Term{}
	inst = func(t *Term) {
		switch t.Op {
		case OAnd:
			for _, a := range t.Args {
				inst(a)
			}
		case ONot:
			// a negated disjunction is a conjunction
			if t.Args[0].Op == OOr {
				for _, a := range t.Args[0].Args {
					inst(Not(a))
				}
			}
		case OForall:
			if t.free {
				return
			}
			for _, c := range consts {
				if c.S == t.Args[0].S {
					x := subst(t.Args[1], map[*Term]*Term{t.Args[0]: c}, map[*Term]*Term{})
					extra = append(extra, x)
					if len(extra) < 200 {
						inst(x)
					}
				}
			}
		}
	}
	for _, t := range out {
		inst(t)
	}
	return append(out, extra...), last
}

func hasForall(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == OForall {
		return true
	}
	for _, a := range t.Args {
		if hasForall(a, seen) {
			return true
		}
	}
	return false
}

// queryTexts gives the query with its axioms and, when it would differ, a smaller one: without
// quantified hypotheses and without unfoldings of recursive functions the goal does not mention.
func (ex *Exec) queryTexts(as []*Term, goal *Term) (string, string) {
	ax := ex.axiomsFor(as)
	full := append(append([]*Term{}, as...), ax...)
	ptxt := ""
	if len(full) > 40 && goal != nil {
		names := map[string]bool{}
		walkTerms([]*Term{goal}, func(t *Term) {
			if t.Op == OApp && isRecName(t.Name) {
				names[t.Name[:strings.LastIndex(t.Name, "#")]] = true
			}
		})
		var ground []*Term
		for _, a := range as {
			if !hasForall(a, map[*Term]bool{}) {
				ground = append(ground, a)
			}
		}
		ex.onlyRecs = names
		pax := ex.axiomsFor(ground)
		ex.onlyRecs = nil
		if len(ground)+len(pax) < len(full) {
			ptxt = script(append(ground, pax...), false) + "(check-sat)\n"
		}
	}
	return script(full, false) + "(check-sat)\n", ptxt
}

// solveTexts tries the pruned query first.
func solveTexts(txt, ptxt string, t1, t2 int, tmpdir string, id int) (string, string, string) {
	if ptxt != "" && os.Getenv("GOVC_PRUNE") != "" {
		file := fmt.Sprintf("%s/p%d.smt2", tmpdir, id)
		os.WriteFile(file, []byte(ptxt), 0644)
		r, out := runOne(context.Background(), portfolio[0], 2, file)
		os.Remove(file)
		if d := os.Getenv("GOVC_SLOW"); d != "" && r != "unsat" {
			os.WriteFile(fmt.Sprintf("%s/p_%s_%d.smt2", d, r, id), []byte(ptxt), 0644)
		}
		if r == "unsat" {
			return r, portfolio[0].name, out
		}
	}
	return solveText(txt, t1, t2, tmpdir, id)
}
