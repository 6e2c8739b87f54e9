package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ObRes struct {
	Contract string  `json:"contract"`
	Label    string  `json:"label"`
	Pos      string  `json:"pos,omitempty"`
	Status   string  `json:"status"`
	Backend  string  `json:"backend"`
	Secs     float64 `json:"secs"`
	Cover    bool    `json:"cover,omitempty"`
	Detail   string  `json:"detail,omitempty"`
}

type ConRes struct {
	Name    string   `json:"name"`
	Target  string   `json:"target"`
	Err     string   `json:"err,omitempty"`
	Paths   int      `json:"obligations"`
	Secs    float64  `json:"exec_secs"`
	Total   float64  `json:"total_secs"`
	Feas    int      `json:"feasibility_queries"`
	Inlined []string `json:"inlined,omitempty"`
	Used    []string `json:"used,omitempty"`
}

type Result struct {
	Prop        string         `json:"prop"`
	Contracts   []ConRes       `json:"contracts"`
	Obligations []ObRes        `json:"obligations"`
	Trusted     []string       `json:"trusted"`
	Warnings    []string       `json:"warnings"`
	Dropped     []string       `json:"dropped"`
	Backends    map[string]int `json:"backends"`
	SolverSecs  float64        `json:"solver_secs"`
	Wall        float64        `json:"wall"`
	LoadErr     string         `json:"load_err,omitempty"`
}

var (
	fProp   = flag.String("prop", "", "property")
	fRe     = flag.String("re", "", "contract name regexp")
	fRepo   = flag.String("repo", "/repo", "repository")
	fCon    = flag.String("contracts", "/verif/contracts", "contracts directory")
	fOut    = flag.String("out", "", "result file")
	fT1     = flag.Int("t1", 8, "first solver timeout")
	fT2     = flag.Int("t2", 40, "portfolio timeout")
	fV      = flag.Bool("v", false, "verbose")
	fJ      = flag.Int("j", 0, "parallel solvers")
	fW      = flag.Int("w", 0, "worker processes")
	fWorker = flag.Bool("worker", false, "serve contracts named on stdin (internal)")
	fNoUse  = flag.Bool("nouse", false, "do not verify used contracts")
)

var extraPkgs = []string{"encoding/binary", "container/heap", "github.com/iden3/go-iden3-crypto/utils"}

func loadProg(overlay map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile, Dir: *fRepo, Env: os.Environ(), Overlay: overlay}
	pats := append([]string{"./..."}, extraPkgs...)
	pats = append(pats, "./zzverif")
	return packages.Load(cfg, pats...)
}

func main() {
	flag.Parse()
	wout := os.Stdout
	if *fWorker {
		os.Stdout = os.Stderr
		*fV = false
	}
	t0 := time.Now()
	res := &Result{Prop: *fProp, Backends: map[string]int{}}
	defer func() {
		if *fWorker {
			return
		}
		res.Wall = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(res, "", " ")
		if *fOut != "" {
			os.WriteFile(*fOut, b, 0644)
		}
	}()
	if *fJ == 0 {
		*fJ = runtime.NumCPU()
	}
	if *fW == 0 {
		*fW = (runtime.NumCPU() + 1) * 3 / 4
	}
	overlay := map[string][]byte{}
	files := map[string]bool{}
	src := map[string]string{}
	filepath.Walk(*fCon, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*fCon, p)
		dst := filepath.Join(*fRepo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))
		if filepath.Dir(rel) == "zzverif" {
			dst = filepath.Join(*fRepo, rel)
		}
		b, _ := os.ReadFile(p)
		overlay[dst] = b
		files[dst] = true
		src[dst] = rel
		return nil
	})
	var ps []*packages.Package
	for try := 0; ; try++ {
		var err error
		ps, err = loadProg(overlay)
		if err != nil {
			res.LoadErr = err.Error()
			fmt.Println("load:", err)
			return
		}
		bad := map[string][]packages.Error{}
		other := ""
		for _, p := range ps {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ".go:"); i > 0 {
					f = f[:i+3]
				}
				if files[f] {
					bad[f] = append(bad[f], e)
				} else {
					other += e.Error() + "\n"
				}
			}
		}
		if len(bad) == 0 {
			if other != "" {
				res.Warnings = append(res.Warnings, other)
			}
			break
		}
		if try > 6 {
			res.LoadErr = fmt.Sprint("contract files do not type-check: ", bad)
			fmt.Println(res.LoadErr)
			return
		}
		for f, es := range bad {
			var dr []string
			overlay[f], dr = dropDecls(f, overlay[f], es)
			for _, d := range dr {
				res.Dropped = append(res.Dropped, src[f]+": "+d)
			}
		}
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ex := &Exec{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*FnInfo{}, contracts: map[*ssa.Function]*Contract{}, byName: map[string]*Contract{}, invs: map[*ssa.Function][]*ssa.Function{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, globals: map[*ssa.Global]int{}, globalOf: map[int]*ssa.Global{}, initDone: map[*ssa.Package]bool{}, qcache: map[[2]int]bool{}, recs: map[*ssa.Function]bool{}, unfolded: map[*Term][]*Term{}, unfoldDefs: map[string][]*Term{}, houdiniT2: 20, stubs: map[string]map[string]*ssa.Function{}, memo: map[string]bool{}, specPlain: map[*ssa.Function]int{}, specMemo: map[string][]*Term{}, specFns: map[*ssa.Function]bool{}, nilable: map[string]bool{}, auto: map[*ssa.Function][]*Contract{}, budget: 40000000, houdiniLog: os.Getenv("GOVC_HOUDINI") != ""}
	for i, p := range pk {
		if p != nil {
			ex.pkgs[ps[i].PkgPath] = p
		}
	}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "math/big" {
			if o := p.Pkg.Scope().Lookup("Int"); o != nil {
				bigIntType = o.Type()
			}
		}
	}
	if bigIntType == nil {
		for _, p := range ps {
			for _, imp := range p.Types.Imports() {
				if imp.Path() == "math/big" {
					bigIntType = imp.Scope().Lookup("Int").Type()
				}
			}
		}
	}
	var err error
	ex.tmp, err = os.MkdirTemp("", "govc")
	if err != nil {
		res.LoadErr = err.Error()
		return
	}
	defer os.RemoveAll(ex.tmp)
	ex.feas = newSolver()
	defer ex.feas.close()
	ex.contractFiles = files
	all := ex.parseContracts(ps, files)
	if *fV {
		fmt.Printf("loaded %d packages, %d contracts in %.2fs\n", len(ps), len(all), time.Since(t0).Seconds())
	}
	for _, p := range pk {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && !skipInit[strings.TrimPrefix(p.Pkg.Path(), modPath+"/")] {
			ex.runInit(p)
		}
	}
	if *fV {
		fmt.Printf("initialised %.2fs\n", time.Since(t0).Seconds())
	}
	ex.trusted = map[string]bool{}
	res.Warnings = append(res.Warnings, ex.warnings...)
	var re *regexp.Regexp
	if *fRe != "" {
		re = regexp.MustCompile(*fRe)
	}
	sel := map[string]*Contract{}
	var queue []*Contract
	byFull := map[string]*Contract{}
	for _, c := range all {
		byFull[c.Name] = c
		want := re != nil && re.MatchString(c.Name)
		for _, p := range c.Props {
			if p == *fProp && re == nil {
				want = true
			}
		}
		if want {
			sel[c.Name] = c
			queue = append(queue, c)
		}
	}
	if *fWorker {
		toks := os.NewFile(3, "tokens-r")
		tokw := os.NewFile(4, "tokens-w")
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<20)
		out := bufio.NewWriter(wout)
		for in.Scan() {
			c := byFull[in.Text()]
			if c == nil {
				continue
			}
			r := ex.runContract(c, toks, tokw)
			b, _ := json.Marshal(r)
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		return
	}
	tr, tw, err := os.Pipe()
	if err != nil {
		res.LoadErr = err.Error()
		return
	}
	for i := 0; i < *fJ; i++ {
		tw.Write([]byte{1})
	}
	var results []*VC
	takeRes := func(r *WRes) []string {
		r.Con.Total = r.Total
		res.Contracts = append(res.Contracts, r.Con)
		if *fV {
			fmt.Printf("%-50s %d VCs exec %.2fs feas %d (%.1fs) total %.1fs %s\n", r.Con.Name, r.Con.Paths, r.Con.Secs, r.Con.Feas, r.FeasSecs, r.Total, r.Con.Err)
		}
		res.SolverSecs += r.FeasSecs
		for _, t := range r.Trusted {
			ex.trusted[t] = true
		}
		res.Warnings = append(res.Warnings, r.Warnings...)
		results = append(results, r.VCs...)
		return r.Used
	}
	addUsed := func(us []string) {
		if *fNoUse {
			return
		}
		for _, u := range us {
			if sel[u] == nil && byFull[u] != nil {
				sel[u] = byFull[u]
				queue = append(queue, byFull[u])
			}
		}
	}
	if *fW <= 1 || os.Getenv("GOVC_SHOW") != "" || os.Getenv("GOVC_DUMP") != "" || os.Getenv("GOVC_HOUDINI") != "" || os.Getenv("GOVC_SLOW") != "" || os.Getenv("GOVC_TRACE") != "" || os.Getenv("GOVC_PANIC") != "" || os.Getenv("GOVC_KEEP") != "" {
		for len(queue) > 0 {
			c := queue[0]
			queue = queue[1:]
			addUsed(takeRes(ex.runContract(c, tr, tw)))
		}
	} else {
		type done struct {
			w int
			r *WRes
			c *Contract
		}
		ch := make(chan done)
		jobs := make([]chan *Contract, 0)
		var procs []*os.Process
		var pmu sync.Mutex
		spawn := func() {
			i := len(jobs)
			jc := make(chan *Contract)
			jobs = append(jobs, jc)
			go func() {
				var cmd *exec.Cmd
				var wi io.WriteCloser
				var ro *bufio.Reader
				first := false
				for c := range jc {
					if cmd == nil {
						cmd = exec.Command(os.Args[0], append(append([]string{}, os.Args[1:]...), "-worker")...)
						cmd.ExtraFiles = []*os.File{tr, tw}
						cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
						cmd.Stderr = os.Stderr
						first = true
						wi, _ = cmd.StdinPipe()
						rp, _ := cmd.StdoutPipe()
						ro = bufio.NewReaderSize(rp, 1<<20)
						runtime.LockOSThread()
						if err := cmd.Start(); err != nil {
							ch <- done{i, &WRes{Con: ConRes{Name: c.Name, Target: c.TName, Err: "worker: " + err.Error()}}, c}
							cmd = nil
							continue
						}
					}
					fmt.Fprintln(wi, c.Name)
					if first {
						first = false
						pmu.Lock()
						procs = append(procs, cmd.Process)
						pmu.Unlock()
					}
					line, err := ro.ReadBytes('\n')
					r := &WRes{}
					if err == nil {
						err = json.Unmarshal(line, r)
					}
					if err != nil {
						cmd.Process.Kill()
						werr := cmd.Wait()
						cmd = nil
						r = &WRes{Con: ConRes{Name: c.Name, Target: c.TName, Err: fmt.Sprint("worker failed: ", err, " ", werr)}}
					}
					ch <- done{i, r, c}
				}
				if cmd != nil {
					wi.Close()
					cmd.Wait()
				}
			}()
		}
		// contracts that an earlier run found to be needed start at once; what
		// they yield counts only when this run turns out to need them as well
		hints := map[string]struct {
			Used []string
			Cost float64
		}{}
		if b, err := os.ReadFile(filepath.Join(*fCon, "..", "tools", "hints.json")); err == nil {
			json.Unmarshal(b, &hints)
		}
		early := map[string]*Contract{}
		var hint func(n string)
		hint = func(n string) {
			for _, u := range hints[n].Used {
				if c := byFull[u]; c != nil && sel[u] == nil && early[u] == nil {
					early[u] = c
					hint(u)
				}
			}
		}
		if !*fNoUse {
			for _, c := range queue {
				hint(c.Name)
			}
		}
		results := map[string]*WRes{}
		started := map[string]bool{}
		taken := map[string]bool{}
		next := func() *Contract {
			var best *Contract
			for _, cs := range []map[string]*Contract{sel, early} {
				for n, c := range cs {
					if started[n] {
						continue
					}
					if best == nil || hints[n].Cost > hints[best.Name].Cost || hints[n].Cost == hints[best.Name].Cost && n < best.Name {
						best = c
					}
				}
			}
			return best
		}
		var idle []int
		running := 0
		need := func() int {
			k := 0
			for n := range sel {
				if !taken[n] {
					k++
				}
			}
			return k
		}
		for need() > 0 {
			for len(idle) > 0 || len(jobs) < *fW {
				c := next()
				if c == nil {
					break
				}
				if len(idle) == 0 {
					spawn()
					idle = append(idle, len(jobs)-1)
				}
				w := idle[len(idle)-1]
				idle = idle[:len(idle)-1]
				running++
				started[c.Name] = true
				jobs[w] <- c
			}
			d := <-ch
			running--
			idle = append(idle, d.w)
			results[d.c.Name] = d.r
			for again := true; again; {
				again = false
				for n := range sel {
					if r := results[n]; r != nil && !taken[n] {
						taken[n] = true
						addUsed(takeRes(r))
						again = true
					}
				}
			}
		}
		if running > 0 {
			for _, p := range procs {
				p.Kill()
			}
			jobs = nil
		}
		for _, j := range jobs {
			close(j)
		}
	}
	nd, nf := 0, 0
	sort.SliceStable(res.Contracts, func(i, j int) bool { return res.Contracts[i].Name < res.Contracts[j].Name })
	for _, vc := range results {
		res.Obligations = append(res.Obligations, ObRes{Contract: vc.Contract, Label: vc.Label, Pos: vc.Pos, Status: vc.Status, Backend: vc.Backend, Secs: vc.Secs, Cover: vc.Cover, Detail: trunc(vc.Model, 2000)})
		res.SolverSecs += vc.Secs
		res.Backends[vc.Backend]++
		if vc.Status == "discharged" {
			nd++
		} else {
			nf++
			if *fV {
				fmt.Printf("  %s %s %s %s (%s %.1fs)\n", vc.Status, vc.Contract, vc.Label, vc.Pos, vc.Backend, vc.Secs)
				if os.Getenv("GOVC_SHOW") != "" {
					for _, p := range vc.PC {
						fmt.Println("      pc", trunc(p.String(), 300))
					}
					fmt.Println("      goal", trunc(vc.Goal.String(), 2000))
				}
			}
		}
	}
	res.Trusted = sortedKeys(ex.trusted)
	sort.Strings(res.Warnings)
	res.Warnings = uniq(res.Warnings)
	ne := 0
	for _, c := range res.Contracts {
		if c.Err != "" {
			ne++
		}
	}
	fmt.Printf("%s: %d contracts (%d errors), %d obligations discharged, %d not; %.1fs\n", *fProp+*fRe, len(res.Contracts), ne, nd, nf, time.Since(t0).Seconds())
	for _, w := range append(res.Warnings, res.Dropped...) {
		fmt.Println("warning:", w)
	}
}

// WRes is what one contract's verification produced.
type WRes struct {
	Con      ConRes
	VCs      []*VC
	Used     []string
	Trusted  []string
	Warnings []string
	FeasSecs float64
	Total    float64
}

func uniq(xs []string) []string {
	var out []string
	for i, x := range xs {
		if i == 0 || xs[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

// runContract executes one contract and discharges its obligations; every
// solver run holds one token of the pipe shared by all workers.
func (ex *Exec) runContract(c *Contract, tokr, tokw *os.File) *WRes {
	tStart := time.Now()
	var tmu sync.Mutex
	take := func() {
		tmu.Lock()
		defer tmu.Unlock()
		var b [1]byte
		tokr.Read(b[:])
	}
	give := func() { tokw.Write([]byte{1}) }
	ex.take, ex.give = take, give
	var mu sync.Mutex
	var wg sync.WaitGroup
	var results []*VC
	vcid := 0
	ex.trusted = map[string]bool{}
	ex.warnings = nil
	t1 := time.Now()
	ex.vcs = nil
	ex.inlined = map[string]bool{}
	ex.used = map[string]bool{}
	f0, fs0 := ex.feas.N, ex.feas.Secs
	err := ex.verify(c)
	cr := ConRes{Name: c.Name, Target: c.TName, Secs: time.Since(t1).Seconds(), Feas: ex.feas.N - f0, Paths: len(ex.vcs), Inlined: sortedKeys(ex.inlined), Used: sortedKeys(ex.used)}
	if err != nil {
		cr.Err = err.Error()
	}
	nob := 0
	for _, vc := range ex.vcs {
		if !vc.Cover {
			nob++
		}
	}
	if err == nil && nob == 0 {
		cr.Err = "no obligations generated"
	}
	seen := map[string]*VC{}
	for _, vc := range ex.vcs {
		vc := vc
		results = append(results, vc)
		if vc.Status != "" {
			continue
		}
		if ex.cur != nil && vc.Cover && len(vc.PC) == 0 {
			vc.Status, vc.Backend = "discharged", "simplifier"
			continue
		}
		as := append([]*Term{}, vc.PC...)
		if !vc.Cover {
			as = append(as, Not(vc.Goal))
		} else {
			vc.Goal = True
		}
		var goal *Term
		if len(as) > 0 {
			as, goal = skolem(as)
		}
		txt, ptxt := ex.queryTexts(as, goal)
		if vc.Cover {
			ptxt = ""
		}
		key := txt
		if vc.Cover {
			key = "cover" + txt
		}
		if o := seen[key]; o != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					s := o.Status
					mu.Unlock()
					if s != "" {
						vc.Status, vc.Backend = o.Status, o.Backend
						return
					}
					time.Sleep(5 * time.Millisecond)
				}
			}()
			continue
		}
		seen[key] = vc
		vcid++
		id := vcid
		t1, t2 := *fT1, *fT2
		if c.Tmo > 0 && c.Tmo > t2 {
			t2 = c.Tmo
		}
		if vc.Cover {
			t1, t2 = 3, 0
		}
		wg.Add(1)
		take()
		go func() {
			defer func() { give(); wg.Done() }()
			ts := time.Now()
			r, be, out := solveTexts(txt, ptxt, t1, t2, ex.tmp, id)
			mu.Lock()
			defer mu.Unlock()
			vc.Secs = time.Since(ts).Seconds()
			vc.Backend = be
			if vc.Cover && os.Getenv("GOVC_SHOW") != "" {
				fmt.Println("cover", vc.Label, r, id)
			}
			switch {
			case vc.Cover && r == "unsat":
				vc.Status = "failed"
			case vc.Cover:
				vc.Status = "discharged"
			case r == "unsat":
				vc.Status = "discharged"
			case r == "sat":
				vc.Status = "failed"
			default:
				vc.Status = "unknown"
				if r == "error" {
					vc.Model = out
				}
			}
		}()
	}
	wg.Wait()
	// a cover point needs one satisfiable path; infeasible leftovers are dropped
	covOK := map[string]bool{}
	covBad := map[string]*VC{}
	var kept []*VC
	for _, vc := range results {
		if !vc.Cover {
			kept = append(kept, vc)
			continue
		}
		k := vc.Contract + "|" + strings.SplitN(vc.Label, "#", 2)[0]
		if vc.Status == "discharged" && !covOK[k] {
			covOK[k] = true
			kept = append(kept, vc)
		} else if vc.Status != "discharged" {
			covBad[k] = vc
		}
	}
	for k, vc := range covBad {
		if !covOK[k] {
			kept = append(kept, vc)
		}
	}
	results = kept
	for _, vc := range results {
		// only what the report needs travels between processes
		vc.Model = trunc(vc.Model, 2000)
	}
	return &WRes{Con: cr, VCs: results, Used: sortedKeys(ex.used), Trusted: sortedKeys(ex.trusted), Warnings: ex.warnings, FeasSecs: ex.feas.Secs - fs0, Total: time.Since(tStart).Seconds()}
}

// relevant drops path-condition conjuncts that share no symbol with the goal (transitively).

var skipInit = map[string]bool{"eth/contracts": true, "testgen": true}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// dropDecls blanks the declarations of a contract file that contain type errors.
func dropDecls(name string, b []byte, es []packages.Error) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, b, parser.ParseComments)
	if err != nil {
		return []byte("package " + "x"), []string{"syntax: " + err.Error()}
	}
	var lines []int
	msg := map[int]string{}
	for _, e := range es {
		p := e.Pos[len(name):]
		var l, c int
		fmt.Sscanf(p, ":%d:%d", &l, &c)
		lines = append(lines, l)
		msg[l] = e.Msg
	}
	out := append([]byte{}, b...)
	var dropped []string
	for _, d := range f.Decls {
		from, to := fs.Position(d.Pos()), fs.Position(d.End())
		for _, l := range lines {
			if l < from.Line || l > to.Line {
				continue
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				for _, s := range gd.Specs {
					sp := s.(*ast.ImportSpec)
					if fs.Position(sp.Pos()).Line == l {
						// unused import: make it blank
						for i := fs.Position(sp.Pos()).Offset; i < fs.Position(sp.End()).Offset; i++ {
							out[i] = ' '
						}
					}
				}
				continue
			}
			st := from.Offset
			if fd, ok := d.(*ast.FuncDecl); ok {
				dropped = append(dropped, fd.Name.Name+": "+msg[l])
				if fd.Doc != nil {
					st = fs.Position(fd.Doc.Pos()).Offset
				}
			}
			for i := st; i < to.Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
			break
		}
	}
	sort.Strings(dropped)
	return out, dropped
}

var _ = types.Typ
