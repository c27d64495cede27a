package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// relevant tells whether an obligation decides the given property.
func relevant(name, prop string) bool {
	if name == "frame" || strings.HasPrefix(name, "loop-invariant") || strings.HasPrefix(name, "unwinding") {
		return false
	}
	i := strings.IndexByte(name, ':')
	if i < 3 || name[0] != 'C' || name[1] < '0' || name[1] > '9' {
		return true
	}
	return strings.Contains(","+name[:i]+",", ","+prop+",")
}

type mode struct {
	name    string
	inline  bool
	inv     bool
	bounded int
}

type Checker struct {
	e        *Engine
	prop     string
	tier     string
	seed     int64
	verif    string
	nat      *Native
	deadline time.Time
	sem      chan struct{}
	mu       sync.Mutex
	runs     int
	queries  int
	solTime  time.Duration
	known    []Known
	found    atomic.Bool // a violation has been confirmed: the rest of the work is dropped
}

type Known struct{ prop, contract, oblig, text string }

func (k *Checker) attempt(c *Contract, m mode, demoted map[string]bool, limit time.Duration) *Result {
	k.sem <- struct{}{}
	defer func() { <-k.sem }()
	r := newRun(k.e, c)
	r.inline = m.inline
	r.useInv = m.inv
	if m.bounded > 0 {
		r.bounded, r.unroll = true, m.bounded
		r.maxPaths = 6000
	}
	for d := range demoted {
		r.demoted[d] = true
	}
	r.deadline = time.Now().Add(limit)
	if k.deadline.Before(r.deadline) {
		r.deadline = k.deadline
	}
	r.cancel = k.found.Load
	r.crossSec = 0
	if k.tier == "thorough" && m.bounded == 0 {
		r.crossSec = 20
	}
	res := r.verify()
	res.Level = m.name
	k.mu.Lock()
	k.runs++
	k.queries += res.Queries
	k.solTime += res.SolTime
	k.mu.Unlock()
	return res
}

func (k *Checker) bad(res *Result) bool {
	if res.Err != "" {
		return true
	}
	for _, f := range res.Fails {
		if relevant(f.Name, k.prop) || strings.HasPrefix(f.Name, "unwinding") {
			return true
		}
	}
	return false
}

func sound(res *Result) bool {
	return res.Err == "" && len(res.Fails) == 0 && len(res.Demote) == 0
}

type Verdict struct {
	Ctr     *Contract
	Res     *Result
	OK      bool
	Bounded bool
	Note    string
	Fail    *Failure
	Nat     *NatRes
	Msg     string
}

func baseMode(c *Contract) mode { return mode{"modular", false, c.has("inv"), 0} }

// ladder decides a contract whose modular proof does not go through.
func (k *Checker) ladder(c *Contract, first *Result, demoted map[string]bool, quickOnly bool) *Verdict {
	v := &Verdict{Ctr: c, Res: first}
	var cands []*Failure
	collect := func(res *Result) {
		for _, f := range res.Fails {
			if relevant(f.Name, k.prop) && f.Script != nil {
				cands = append(cands, f)
			}
		}
	}
	collect(first)
	tried := 0
	replay := func() bool {
		for ; tried < len(cands) && tried < 24; tried++ {
			f := cands[tried]
			if k.found.Load() {
				return false
			}
			nr := k.nat.run(c.Name, k.prop, f.Script, 0, 0)
			if nr.Kind == "violation" {
				nr.Script = f.Script
				v.Fail, v.Nat = f, &nr
				k.confirmed(c, f)
				return true
			}
		}
		return false
	}
	search := func(sec float64) bool {
		nr := k.nat.run(c.Name, k.prop, nil, sec, k.seed)
		if nr.Kind == "violation" {
			v.Nat = &nr
			v.Fail = &Failure{Name: nr.Name, Msg: nr.Msg, Res: "found by running the contract on generated inputs"}
			k.confirmed(c, v.Fail)
			for _, f := range first.Fails {
				if relevant(f.Name, k.prop) {
					v.Fail.Pos = f.Pos
				}
			}
			return true
		}
		return false
	}
	if len(cands) > 0 && replay() {
		return v
	}
	if quickOnly {
		if !c.has("nonative") && !k.found.Load() && search(5) {
			return v
		}
		return nil
	}
	full := true
	for _, m := range []mode{{"inlined", true, c.has("inv"), 0}, {"inlined, loops " + map[bool]string{true: "unrolled", false: "by invariant"}[c.has("inv")], true, !c.has("inv"), 0}} {
		res := k.attempt(c, m, demoted, 90*time.Second)
		if !k.bad(res) {
			v.Res, v.OK = res, true
			v.Note = "decided with callees inlined"
			return v
		}
		n := len(cands)
		collect(res)
		if len(cands) > n && replay() {
			return v
		}
	}
	var last *Result
	for _, b := range []int{2, 4, 8} {
		res := k.attempt(c, mode{fmt.Sprintf("bounded, loops and recursion up to %d", b), true, false, b}, demoted, 60*time.Second)
		n := len(cands)
		collect(res)
		if len(cands) > n && replay() {
			return v
		}
		if !k.bad(res) && res.Cut == 0 {
			v.Res, v.OK = res, true
			v.Note = "decided by complete unrolling with callees inlined"
			return v
		}
		if k.bad(res) {
			if last == nil || res.Err == "" {
				last = res
			}
			if res.Err != "" {
				break
			}
			full = false
			break
		}
		last = res
	}
	sec := 20.0
	if k.tier == "thorough" {
		sec = 60
	}
	if !k.found.Load() && search(sec) {
		return v
	}
	if k.found.Load() {
		v.OK, v.Bounded, v.Note = true, true, "not finished: another contract is violated"
		return v
	}
	sat := false
	var sf *Failure
	if !full && last != nil {
		for _, f := range last.Fails {
			if relevant(f.Name, k.prop) && f.Res == "sat" {
				sat, sf = true, f
			}
		}
	}
	if sat {
		v.Fail = sf
		return v
	}
	// an obligation of the current code is not discharged: that is reported
	v.Note = "not proved for the code as it is now; no failing case in the bounded check or the search"
	for _, f := range first.Fails {
		if relevant(f.Name, k.prop) {
			v.Fail = f
			break
		}
	}
	if v.Fail == nil && last != nil {
		for _, f := range last.Fails {
			if relevant(f.Name, k.prop) {
				v.Fail = f
				break
			}
		}
	}
	if v.Fail == nil {
		why := first.Err
		if why == "" && last != nil {
			why = last.Err
		}
		v.Fail = &Failure{Name: "proof-incomplete", Msg: why, Res: "unknown"}
	}
	return v
}

// confirmed: a violation that is not a known finding has been reproduced.
func (k *Checker) confirmed(c *Contract, f *Failure) {
	if !k.isKnown(c.Name, f.Name) {
		k.found.Store(true)
	}
}

func (k *Checker) isKnown(ctr, oblig string) bool {
	for _, kn := range k.known {
		if kn.prop == k.prop && kn.contract == ctr && kn.oblig == oblig {
			return true
		}
	}
	return false
}

func checkMain(prop, tier, repo, verif string) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println("govc: the library cannot be loaded:", err)
		return 2
	}
	k := &Checker{e: e, prop: prop, tier: tier, seed: seed, verif: verif, sem: make(chan struct{}, maxInt(2, runtime.NumCPU()))}
	total := 560 * time.Second
	if tier == "thorough" {
		total = 850 * time.Second
		if os.Getenv("GOVC_LONG") != "" {
			total = 6 * time.Hour
		}
	}
	k.deadline = t0.Add(total)
	dir := scratchDir()
	defer os.RemoveAll(dir)
	k.nat = &Native{e: e, dir: dir}
	k.readKnown()

	var roots []*Contract
	byName := map[string]*Contract{}
	for _, c := range e.contracts {
		byName[c.Name] = c
		for _, p := range c.Props {
			if p == prop {
				roots = append(roots, c)
				break
			}
		}
	}
	if len(roots) == 0 {
		fmt.Println("govc: no contract for property", prop, e.dropped)
		return 2
	}
	// modular verification of the roots and of every contract they rely on
	results := map[string]*Result{}
	demoted := map[string]bool{}
	runAll := func(cs []*Contract) {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, c := range cs {
			wg.Add(1)
			go func(c *Contract) {
				defer wg.Done()
				r := k.attempt(c, baseMode(c), demoted, 150*time.Second)
				mu.Lock()
				results[c.Name] = r
				mu.Unlock()
			}(c)
		}
		wg.Wait()
	}
	verdicts := make([]*Verdict, len(roots))
	var wg sync.WaitGroup
	todo := roots
	for n := 0; len(todo) > 0 && !k.found.Load(); n++ {
		runAll(todo)
		if n == 0 {
			// failures that can be reproduced at once
			for i, c := range roots {
				if r := results[c.Name]; k.bad(r) {
					wg.Add(1)
					go func(i int, c *Contract) {
						defer wg.Done()
						verdicts[i] = k.ladder(c, r, nil, true)
					}(i, c)
				}
			}
			wg.Wait()
		}
		todo = nil
		seen := map[string]bool{}
		for _, r := range results {
			for _, u := range r.UsedC {
				if results[u] == nil && !seen[u] && byName[u] != nil {
					seen[u] = true
					todo = append(todo, byName[u])
				}
			}
		}
	}
	for round := 0; round < 8 && !k.found.Load(); round++ {
		changed := false
		for n, r := range results {
			if !sound(r) && !demoted[n] {
				demoted[n] = true
				changed = true
				fmt.Printf("NOTE: contract %s is not established (%s); callers are checked against the body\n", n, r.why())
			}
		}
		if !changed {
			break
		}
		var redo []*Contract
		for n, r := range results {
			for _, u := range r.UsedC {
				if demoted[u] && (u != n || len(r.Demote) == 0) && sound(r) == sound(r) {
					redo = append(redo, byName[n])
					break
				}
			}
		}
		if len(redo) == 0 {
			break
		}
		runAll(redo)
		// contracts newly used because others were demoted
		for {
			var more []*Contract
			seen := map[string]bool{}
			for _, r := range results {
				for _, u := range r.UsedC {
					if results[u] == nil && !seen[u] && byName[u] != nil {
						seen[u] = true
						more = append(more, byName[u])
					}
				}
			}
			if len(more) == 0 {
				break
			}
			runAll(more)
		}
	}
	for i, c := range roots {
		r := results[c.Name]
		if verdicts[i] != nil {
			continue
		}
		if !k.bad(r) {
			verdicts[i] = &Verdict{Ctr: c, Res: r, OK: true}
			continue
		}
		wg.Add(1)
		go func(i int, c *Contract, r *Result) {
			defer wg.Done()
			verdicts[i] = k.ladder(c, r, demoted, false)
		}(i, c, r)
	}
	wg.Wait()
	if tier == "thorough" {
		k.crossRun(roots, verdicts)
	}
	return k.report(t0, roots, verdicts, results, demoted)
}

// crossRun executes every contract natively on generated inputs: this checks
// the contracts and the verifier's semantics against the compiled library.
func (k *Checker) crossRun(roots []*Contract, vs []*Verdict) {
	left := time.Until(k.deadline) - 40*time.Second
	if left < 10*time.Second {
		return
	}
	per := left.Seconds() * 4 / float64(len(roots))
	if per > 60 {
		per = 60
	}
	if per < 2 {
		per = 2
	}
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, c := range roots {
		if !vs[i].OK {
			continue
		}
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			nr := k.nat.run(c.Name, k.prop, nil, per, k.seed)
			vs[i].Nat = &nr
			if nr.Kind == "violation" {
				vs[i].OK = false
				vs[i].Fail = &Failure{Name: nr.Name, Msg: nr.Msg, Res: "found by running the contract on generated inputs"}
			}
		}(i, c)
	}
	wg.Wait()
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (k *Checker) readKnown() {
	b, err := os.ReadFile(filepath.Join(k.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l[6:])
		kn := Known{}
		n := 0
		for _, x := range f {
			key, val, ok := strings.Cut(x, "=")
			if !ok {
				break
			}
			switch key {
			case "property":
				kn.prop = val
			case "contract":
				kn.contract = val
			case "obligation":
				kn.oblig = val
			default:
				ok = false
			}
			if !ok {
				break
			}
			n++
		}
		kn.text = strings.Join(f[n:], " ")
		k.known = append(k.known, kn)
	}
}

type replayFile struct {
	Property   string      `json:"property"`
	Contract   string      `json:"contract"`
	Target     string      `json:"target"`
	Obligation string      `json:"obligation"`
	Message    string      `json:"message"`
	Position   string      `json:"position"`
	Verifier   string      `json:"verifier"`
	Confirmed  bool        `json:"confirmed_by_execution"`
	Script     []ScriptVal `json:"script"`
	Native     string      `json:"native_output,omitempty"`
	SMT        string      `json:"smt,omitempty"`
	HowTo      string      `json:"how_to_replay"`
}

func (k *Checker) writeReplay(v *Verdict) string {
	dir := filepath.Join(k.verif, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, k.prop+"-"+v.Ctr.Name+".json")
	rf := replayFile{Property: k.prop, Contract: v.Ctr.Name, Target: v.Ctr.Target, Obligation: v.Fail.Name, Message: v.Fail.Msg, Position: v.Fail.Pos,
		Verifier: v.Fail.Res, Script: v.Fail.Script, SMT: v.Fail.SMT, HowTo: "cd " + k.verif + " && ./run.sh replay " + p}
	if v.Nat != nil {
		rf.Confirmed = v.Nat.Kind == "violation"
		rf.Native = v.Nat.Out
		if rf.Confirmed {
			rf.Script = v.Nat.Script
			rf.Message = v.Nat.Name + ": " + v.Nat.Msg
		}
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func (k *Checker) report(t0 time.Time, roots []*Contract, vs []*Verdict, results map[string]*Result, demoted map[string]bool) int {
	type ctrEv struct {
		Contract    string         `json:"contract"`
		Target      string         `json:"function"`
		Status      string         `json:"status"`
		Mode        string         `json:"mode"`
		Obligations int            `json:"obligations"`
		Names       map[string]int `json:"obligations_by_name"`
		Loops       []string       `json:"loop_invariants,omitempty"`
		Uses        []string       `json:"uses_contracts,omitempty"`
		Inlined     []string       `json:"inlined_functions,omitempty"`
		Note        string         `json:"note,omitempty"`
		Ms          int64          `json:"ms"`
		Native      string         `json:"native_runs,omitempty"`
	}
	total, disch := 0, 0
	back := map[string]int{}
	var evs []ctrEv
	under := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	models := map[string]bool{}
	var bounded []string
	addRes := func(res *Result) (int, map[string]int) {
		n := 0
		names := map[string]int{}
		for _, o := range res.Obls {
			n += o.Count
			names[o.Name] += o.Count
			total += o.Count
			disch += o.Count - o.Failed
			for b, c := range o.Backend {
				if b != "" {
					back[b] += c
				}
			}
		}
		for _, x := range res.Notes {
			notes[x] = true
		}
		for _, x := range res.UsedM {
			models[x] = true
		}
		for _, x := range res.Inlined {
			inl[x] = true
		}
		return n, names
	}
	done := map[string]bool{}
	for i, v := range vs {
		done[roots[i].Name] = true
		n, names := addRes(v.Res)
		st := "proved"
		if v.Bounded {
			st = "bounded"
			bounded = append(bounded, roots[i].Name+": "+v.Note)
		}
		if !v.OK {
			st = "violated"
		}
		x := ctrEv{roots[i].Name, roots[i].Target, st, v.Res.Level, n, names, v.Res.Loops, v.Res.UsedC, v.Res.Inlined, v.Note, v.Res.Time.Milliseconds(), ""}
		if v.Nat != nil && v.Nat.Kind != "violation" {
			x.Native = v.Nat.Kind + " " + v.Nat.Name
		}
		evs = append(evs, x)
		if roots[i].Target != "" {
			under[roots[i].Target] = true
		}
	}
	var deps []string
	for n := range results {
		deps = append(deps, n)
	}
	sort.Strings(deps)
	for _, n := range deps {
		if done[n] || demoted[n] {
			continue
		}
		r := results[n]
		c, names := addRes(r)
		evs = append(evs, ctrEv{n, r.Ctr.Target, "proved (relied on)", r.Level, c, names, r.Loops, r.UsedC, r.Inlined, "", r.Time.Milliseconds(), ""})
		under[r.Ctr.Target] = true
	}
	var viol []*Verdict
	known := 0
	for _, v := range vs {
		if v.OK {
			continue
		}
		if k.isKnown(v.Ctr.Name, v.Fail.Name) {
			for _, kn := range k.known {
				if kn.prop == k.prop && kn.contract == v.Ctr.Name && kn.oblig == v.Fail.Name {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, kn.text)
				}
			}
			known++
			continue
		}
		viol = append(viol, v)
	}
	trusted := []string{"govc (symbolic executor and verification-condition generator in /verif/govc, built on golang.org/x/tools/go/ssa)", "z3 (z3-new), cvc5, z3 4.8.12"}
	for _, m := range keysOf(models) {
		trusted = append(trusted, "model of "+m)
	}
	assume := []string{"slices, strings and maps have fewer than 2^47 elements; memory allocation does not fail",
		"a slice grown by append has no spare capacity", "environment objects (transports, protocols, readers, connections) behave as the models in /verif/contracts describe"}
	assume = append(assume, keysOf(notes)...)
	level := "proof"
	ev := map[string]interface{}{
		"property": k.prop, "tier": k.tier, "seed": k.seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": assume,
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": disch,
			"checker_cmd":               "cd /verif && ./run.sh check " + k.prop + " " + k.tier,
			"trusted_base":              trusted,
			"functions_under_contract":  keysOf(under),
			"functions_inlined":         keysOf(inl),
			"discharged_by":             back,
			"solver_queries":            k.queries,
			"solver_time_s":             k.solTime.Seconds(),
			"verification_runs":         k.runs,
			"contracts":                 evs,
			"bounded_not_proved":        bounded,
			"contracts_not_applicable":  k.e.dropped,
			"demoted_contracts":         keysOf(demoted),
			"library_functions_in_tree": len(k.e.libFns),
			"known_findings":            known,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(k.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(k.verif, "evidence", k.prop+".json"), append(b, '\n'), 0o644)
	proved := 0
	for _, v := range vs {
		if v.OK && !v.Bounded {
			proved++
		}
		if v.Bounded {
			fmt.Printf("BOUNDED property=%s contract=%s %s\n", k.prop, v.Ctr.Name, v.Note)
		}
	}
	for _, d := range k.e.dropped {
		fmt.Println("NOTE: contract code does not fit the current tree:", d)
	}
	fmt.Printf("property=%s tier=%s contracts=%d proved=%d obligations=%d discharged=%d violations=%d %.1fs\n", k.prop, k.tier, len(vs), proved, total, disch, len(viol), time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	conf := false
	for _, v := range viol {
		if v.Nat != nil && v.Nat.Kind == "violation" {
			conf = true
		}
	}
	for _, v := range viol {
		c := v.Nat != nil && v.Nat.Kind == "violation"
		if conf && !c {
			continue
		}
		p := k.writeReplay(v)
		fmt.Printf("contract %s: obligation %s: %s (%s) %s\n", v.Ctr.Name, v.Fail.Name, v.Fail.Msg, v.Fail.Res, v.Fail.Pos)
		sfx := ""
		if !c {
			sfx = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", k.prop, p, sfx)
	}
	return 1
}

func replayMain(file, repo, verif string) int {
	b, err := os.ReadFile(file)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := Load(repo, filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	n := &Native{e: e, dir: dir}
	if rf.Script == nil {
		fmt.Println("no failing input was found for", rf.Obligation)
		return 2
	}
	r := n.run(rf.Contract, rf.Property, rf.Script, 0, 0)
	fmt.Println(r.Kind, r.Name, r.Msg)
	if r.Kind == "violation" {
		return 1
	}
	if r.Kind == "error" {
		fmt.Println(r.Out)
		return 2
	}
	return 0
}

// why says what keeps a contract from being established.
func (r *Result) why() string {
	if r.Err != "" {
		return r.Err
	}
	for _, f := range r.Fails {
		return fmt.Sprintf("%s at %s: %s", f.Name, f.Pos, f.Res)
	}
	for n, w := range r.Demote {
		return n + ": " + w
	}
	return "?"
}
