// Package h is the shared driver of every check.
//
// A check binary runs twice: the parent supervises, the child (same binary,
// VERIF_CHILD set) drives the real code under generated workloads while
// monitors observe it.  The parent turns abnormal ends of the child (stack
// overflow, concurrent map access, uncaught panic, deadlock, race reports)
// into verdicts, writes the evidence file and prints the outcome.
package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"stripverif/yield"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Spec describes one check.
type Spec struct {
	ID          string
	Rule        string   // how cases are made and what makes one non-trivial
	Assumptions []string // what is trusted
	Run         func(r *R)
	// Min lists counters that must reach a value for the run to be conclusive.
	Min map[string]int64
	// MinDistinct is the least number of distinct non-trivial cases.
	MinDistinct int
	// StallTicks is the number of 100ms supervisor ticks without progress that
	// count as a stall (default 600).
	StallTicks int
	// StallInconclusive makes a stall an error of the check, not a violation.
	StallInconclusive bool
}

type violation struct {
	Key    string `json:"key"`
	Stage  string `json:"stage"`
	Case   int    `json:"case"`
	Detail string `json:"detail"`
}

type result struct {
	Done        bool             `json:"done"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []violation      `json:"violations"`
	Error       string           `json:"error"`
}

// R is one run of a check (in the child).
type R struct {
	spec     Spec
	Seed     uint64
	Tier     string
	Dir      string // scratch directory, removed by the parent
	only     string
	mu       sync.Mutex
	res      result
	sigs     map[uint64]struct{}
	heart    []byte
	keys     map[string]bool
	stopping bool
	failed   time.Time // of the first failure
	sampled  map[string]int
}

// Thorough tells whether this is the deep tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// C is one case.
type C struct {
	*rand.Rand
	r     *R
	Stage string
	Index int
	mu    sync.Mutex
	notes []string
	fail  bool
}

type abortCase struct{}

func seedOf(parts ...any) (uint64, uint64) {
	f := fnv.New128a()
	fmt.Fprint(f, parts...)
	var b [16]byte
	s := f.Sum(b[:0])
	return binary.LittleEndian.Uint64(s[:8]), binary.LittleEndian.Uint64(s[8:])
}

// Loop runs n cases of a stage.
func (r *R) Loop(stage string, n int, f func(c *C)) {
	for i := 0; i < n; i++ {
		if r.stopping || r.late() {
			return
		}
		if r.only != "" && r.only != stage+":"+strconv.Itoa(i) {
			continue
		}
		r.one(stage, i, f)
	}
}

// Par runs n further cases of a stage, several at once: what one of them does must
// not be seen by the others.  They are replayed all together.
func (r *R) Par(stage string, n int, f func(c *C)) {
	if r.only != "" && !strings.HasPrefix(r.only, stage+"-at-once:") {
		return
	}
	var wg sync.WaitGroup
	var next atomic.Int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.stopped() || r.late() {
					return
				}
				r.one(stage+"-at-once", i, f)
			}
		}()
	}
	wg.Wait()
}

func (r *R) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stopping
}

// late tells whether there has been a failure for so long that the run better ends:
// failing cases may wait for things that never happen.
func (r *R) late() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return !r.Thorough() && !r.failed.IsZero() && time.Since(r.failed) > 45*time.Second
}

func (r *R) one(stage string, i int, f func(c *C)) {
	a, b := seedOf(r.Seed, "/", r.spec.ID, "/", stage, "/", i)
	c := &C{Rand: rand.New(rand.NewPCG(a, b)), r: r, Stage: stage, Index: i}
	r.beat(stage, i)
	yield.Case(rand.New(rand.NewPCG(b, a)))
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); !ok {
				msg := fmt.Sprint(e)
				c.Fail("panic-"+slug(msg), "unexpected panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
	}()
	r.mu.Lock()
	r.res.Evaluations++
	r.mu.Unlock()
	f(c)
}

func slug(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			b.WriteRune(r)
		} else if b.Len() > 0 && !strings.HasSuffix(b.String(), "-") {
			b.WriteByte('-')
		}
		if b.Len() > 40 {
			break
		}
	}
	return b.String()
}

// trimStack drops the frames above the panic and shortens the rest.
func trimStack(st []byte) string {
	s := string(st)
	if i := strings.Index(s, "\npanic("); i >= 0 {
		s = s[i+1:]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			keep = append(keep, l)
		} else if i := strings.LastIndex(l, "("); i > 0 {
			keep = append(keep, l[:i])
		}
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Beat reports progress inside a long case.
func (c *C) Beat() { c.r.beat(c.Stage, c.Index) }

func (r *R) beat(stage string, i int) {
	if r.heart == nil {
		return
	}
	r.mu.Lock()
	n := binary.LittleEndian.Uint64(r.heart)
	s := fmt.Sprintf("%s:%d", stage, i)
	copy(r.heart[16:], s)
	r.heart[16+len(s)] = 0
	binary.LittleEndian.PutUint64(r.heart, n+1)
	r.mu.Unlock()
}

// Note adds a line to the description of the case, shown when it fails.
func (c *C) Note(format string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Fail records a violation; key groups equal failures.
func (c *C) Fail(key, format string, a ...any) {
	c.mu.Lock()
	notes := strings.Join(c.notes, "\n")
	c.fail = true
	c.mu.Unlock()
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.keys[key] {
		r.res.Counters["repeated:"+key]++
		return
	}
	r.keys[key] = true
	if r.failed.IsZero() {
		r.failed = time.Now()
	}
	d := fmt.Sprintf(format, a...)
	if notes != "" {
		d += "\n--- case ---\n" + notes
	}
	if len(d) > 20000 {
		d = d[:20000] + "..."
	}
	r.res.Violations = append(r.res.Violations, violation{key, c.Stage, c.Index, d})
	if len(r.res.Violations) >= 8 {
		r.stopping = true
	}
	r.save()
}

// Failed tells whether this case has failed.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.fail }

// Fatal is Fail and ends the case.
func (c *C) Fatal(key, format string, a ...any) {
	c.Fail(key, format, a...)
	panic(abortCase{})
}

// Stop lets the run end with this case, when failing ones take long.
func (c *C) Stop() { c.r.mu.Lock(); c.r.stopping = true; c.r.mu.Unlock() }

// Skip ends the case silently.
func (c *C) Skip() { panic(abortCase{}) }

// Inconclusive aborts the whole run as an error of the check.
func (r *R) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.res.Error = fmt.Sprintf(format, a...)
	r.stopping = true
	r.save()
	r.mu.Unlock()
	os.Exit(4)
}

// Inconclusive aborts the whole run as an error of the check.
func (c *C) Inconclusive(format string, a ...any) {
	c.r.Inconclusive("%s:%d "+format, append([]any{c.Stage, c.Index}, a...)...)
}

// Count adds to an observation counter.
func (c *C) Count(name string, n int) {
	c.r.mu.Lock()
	c.r.res.Counters[name] += int64(n)
	c.r.mu.Unlock()
}

// Sig marks the case non-trivial with a signature; distinct ones are counted.
func (c *C) Sig(format string, a ...any) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	f := fnv.New64a()
	f.Write([]byte(s))
	r := c.r
	r.mu.Lock()
	if _, ok := r.sigs[f.Sum64()]; !ok {
		r.sigs[f.Sum64()] = struct{}{}
		if r.sampled[c.Stage] < 3 && len(r.res.Samples) < 12 {
			r.sampled[c.Stage]++
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			r.res.Samples = append(r.res.Samples, fmt.Sprintf("%s:%d %s", c.Stage, c.Index, s))
		}
	}
	r.mu.Unlock()
}

// Eval counts additional evaluations inside a case.
func (c *C) Eval(n int) {
	c.r.mu.Lock()
	c.r.res.Evaluations += int64(n)
	c.r.mu.Unlock()
}

// Dir returns the scratch directory of the run.
func (c *C) Dir() string { return c.r.Dir }

// R returns the run.
func (c *C) R() *R { return c.r }

// Chance is true with probability p percent.
func (c *C) Chance(p int) bool { return c.IntN(100) < p }

// Pick returns one of the strings.
func (c *C) Pick(s ...string) string { return s[c.IntN(len(s))] }

// save must be called with mu held.
func (r *R) save() {
	r.res.Distinct = len(r.sigs)
	b, _ := json.Marshal(r.res)
	tmp := filepath.Join(r.Dir, "result.json.tmp")
	if os.WriteFile(tmp, b, 0o644) == nil {
		os.Rename(tmp, filepath.Join(r.Dir, "result.json"))
	}
}

// VerifDir is the root of the verification tree.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func seedEnv() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		return 1
	}
	return s
}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Main runs the check.
func Main(spec Spec) {
	if d := os.Getenv("VERIF_CHILD"); d != "" {
		child(spec, d)
		return
	}
	os.Exit(parent(spec))
}

func child(spec Spec, dir string) {
	debug.SetMaxStack(64 << 20)
	r := &R{spec: spec, Seed: seedEnv(), Tier: tierEnv(), Dir: dir, only: os.Getenv("VERIF_ONLY"),
		sigs: map[uint64]struct{}{}, keys: map[string]bool{}, sampled: map[string]int{}}
	r.res.Counters = map[string]int64{}
	f, err := os.OpenFile(filepath.Join(dir, "heart"), os.O_RDWR, 0)
	if err == nil {
		if m, e := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); e == nil {
			r.heart = m
		}
		f.Close()
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.mu.Lock()
				r.res.Error = fmt.Sprintf("harness panic outside a case: %v\n%s", e, debug.Stack())
				r.save()
				r.mu.Unlock()
				os.Exit(4)
			}
		}()
		spec.Run(r)
	}()
	r.mu.Lock()
	if n, calls, delays := yield.Stats(); n > 0 {
		r.res.Counters["instrumented places run"] = int64(n)
		r.res.Counters["runs of instrumented places (about)"] = calls
		r.res.Counters["injected delays (about)"] = delays
	}
	r.res.Done = true
	r.save()
	r.mu.Unlock()
	os.Exit(0)
}

type known struct{ prop, key, text string }

func loadKnown() (ks []known) {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return
}

func parent(spec Spec) int {
	start := time.Now()
	base := os.Getenv("VERIF_SCRATCH")
	dir, err := os.MkdirTemp(base, "strip-"+spec.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		return 3
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "heart"), make([]byte, 4096), 0o644)
	hb, _ := os.OpenFile(filepath.Join(dir, "heart"), os.O_RDWR, 0)
	heart, err := syscall.Mmap(int(hb.Fd()), 0, 4096, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mmap:", err)
		return 3
	}
	tmp := filepath.Join(dir, "tmp")
	os.Mkdir(tmp, 0o755)

	logf, _ := os.Create(filepath.Join(dir, "child.log"))
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(childEnv(), "VERIF_CHILD="+dir, "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "start:", err)
		return 3
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stallMax := spec.StallTicks
	if stallMax == 0 {
		stallMax = 600
	}
	total := 8400 // ticks: 840s
	if tierEnv() == "thorough" {
		total = 10 * 3600 * 4
	}
	var werr error
	var last uint64
	stall, stalled, expired := 0, false, false
	tick := time.NewTicker(100 * time.Millisecond)
loop:
	for n := 0; ; n++ {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
		}
		if v := binary.LittleEndian.Uint64(heart); v != last {
			last, stall = v, 0
		} else {
			stall++
		}
		if stall > stallMax || n > total {
			stalled = stall > stallMax
			expired = !stalled
			syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
			select {
			case werr = <-done:
			case <-time.After(20 * time.Second):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
			}
			break loop
		}
	}
	tick.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	logf.Close()

	var res result
	if b, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil {
		json.Unmarshal(b, &res)
	}
	cur := cstr(heart[16:])
	logb, _ := os.ReadFile(filepath.Join(dir, "child.log"))
	log := string(logb)

	stage, idx := splitCase(cur)
	if stalled && !spec.StallInconclusive {
		res.Violations = append(res.Violations, violation{"stall", stage, idx,
			"no progress: the case neither finished nor failed while the supervisor ticked " + strconv.Itoa(stallMax) + " times (a case normally takes milliseconds)\n" + head(log, 30000)})
	} else if !stalled && !expired && !res.Done && res.Error == "" {
		if strings.Contains(log, "fatal error:") || strings.Contains(log, "panic:") || strings.Contains(log, "stack overflow") {
			res.Violations = append(res.Violations, violation{"crash", stage, idx,
				fmt.Sprintf("the process died while running this case (%v)\n%s", werr, crashPart(log))})
		} else {
			res.Error = fmt.Sprintf("child ended abnormally (%v)\n%s", werr, head(log, 4000))
		}
	} else if expired {
		res.Error = "run expired"
	} else if stalled {
		res.Error = "stalled (inconclusive)\n" + head(log, 8000)
	}
	reports := raceReports(dir)
	if len(reports) > 0 {
		if res.Counters == nil {
			res.Counters = map[string]int64{}
		}
		res.Counters["race_reports"] = int64(len(reports))
		for i, p := range reports {
			if i >= 3 {
				break
			}
			res.Violations = append(res.Violations, violation{"race", stage, idx, p})
		}
	}

	// known findings
	var real []violation
	ks := loadKnown()
	for _, v := range res.Violations {
		hit := false
		for _, k := range ks {
			if k.prop == spec.ID && k.key == v.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.ID, k.text)
				hit = true
				break
			}
		}
		if !hit {
			real = append(real, v)
		}
	}

	// conclusive?
	if len(real) == 0 && res.Error == "" && os.Getenv("VERIF_ONLY") == "" {
		for k, m := range spec.Min {
			if res.Counters[k] < m {
				res.Error += fmt.Sprintf("observed only %d %s, need %d; ", res.Counters[k], k, m)
			}
		}
		if res.Distinct < spec.MinDistinct {
			res.Error += fmt.Sprintf("only %d distinct non-trivial cases, need %d", res.Distinct, spec.MinDistinct)
		}
	}
	writeEvidence(spec, res, len(real), time.Since(start))

	if len(real) > 0 {
		for _, v := range real {
			p := writeReplay(spec, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, p)
			fmt.Printf("  [%s] %s:%d %s\n", v.Key, v.Stage, v.Case, head(indent(v.Detail), 3000))
		}
		return 1
	}
	if res.Error != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", spec.ID, res.Error)
		return 3
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s\n", spec.ID, res.Evaluations, res.Distinct, time.Since(start).Seconds(), counters(res.Counters))
	return 0
}

func childEnv() (env []string) {
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch {
		case k == "PATH" || k == "HOME" || k == "GOMAXPROCS" || k == "GOGC" || k == "GODEBUG" || k == "TZ" || strings.HasPrefix(k, "VERIF_"):
			env = append(env, e)
		}
	}
	return
}

func counters(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return b.String()
}

func cstr(b []byte) string {
	for i, c := range b {
		if c == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

func splitCase(s string) (string, int) {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return s, 0
	}
	n, _ := strconv.Atoi(s[i+1:])
	return s[:i], n
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n  ") }

func crashPart(log string) string {
	for _, m := range []string{"fatal error:", "panic:", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(log, m); i >= 0 {
			return head(log[i:], 8000)
		}
	}
	return head(log, 8000)
}

func raceReports(dir string) (out []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			sig := raceSig(blk)
			if seen[sig] {
				continue
			}
			seen[sig] = true
			out = append(out, head(blk, 6000))
		}
	}
	return
}

// raceSig is the set of function names of a report, line numbers stripped.
func raceSig(b string) string {
	var fn []string
	for _, l := range strings.Split(b, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasSuffix(t, ")") && strings.Contains(t, ".") && !strings.HasPrefix(t, "/") {
			fn = append(fn, t)
			if len(fn) >= 6 {
				break
			}
		}
	}
	return strings.Join(fn, "|")
}

func writeReplay(spec Spec, v violation) string {
	dir := filepath.Join(VerifDir(), "replays", spec.ID)
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.txt", v.Key, v.Stage, v.Case))
	p = strings.Map(func(r rune) rune {
		if r == ' ' || r == '*' {
			return '_'
		}
		return r
	}, p)
	body := fmt.Sprintf("property %s\nkey %s\ncase %s:%d\nseed %d tier %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY=%s:%d bash %s/run.sh %s\n\n%s\n",
		spec.ID, v.Key, v.Stage, v.Case, seedEnv(), tierEnv(), seedEnv(), tierEnv(), v.Stage, v.Case, VerifDir(), spec.ID, v.Detail)
	if err := os.WriteFile(p, []byte(body), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
	}
	return p
}

func writeEvidence(spec Spec, res result, nviol int, wall time.Duration) {
	samples := make([]any, 0, len(res.Samples))
	for _, s := range res.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	if res.Counters == nil {
		res.Counters = map[string]int64{}
	}
	ev := map[string]any{
		"property": spec.ID,
		"tier":     tierEnv(),
		"seed":     seedEnv(),
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         res.Evaluations,
			"distinct_nontrivial": res.Distinct,
			"rule":                spec.Rule,
			"samples":             samples,
			"observed":            res.Counters,
		},
		"assumptions": spec.Assumptions,
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  nviol,
	}
	if spec.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if res.Error != "" {
		ev["inconclusive"] = head(res.Error, 2000)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, spec.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
