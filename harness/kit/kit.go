// Package kit is the runner shared by all checks: it shards an enumerated
// space of cases over processes, confirms and records violations, detects
// crashes and hangs of the code under test, and writes the evidence file.
package kit

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is a confirmed failure of one case.
type Violation struct {
	Property string `json:"property"`
	Case     int64  `json:"case"`
	Key      string `json:"key,omitempty"` // identity for known findings
	Desc     string `json:"desc"`
	Err      string `json:"error"`
	Tier     string `json:"tier"`
}

type result struct {
	Cases      int64
	Trans      int64
	Traces     int64
	Nontrivial int64
	Truncated  bool
	Extra      map[string]int64
	Samples    []string
	Violations []Violation
	Notes      []string
	Hang       bool
}

// Spec describes a check.
type Spec struct {
	Property    string
	Level       string // evidence level
	Rule        string // how cases are made, and what makes one non-trivial
	Assumptions []string
	// Shards is the number of processes; 0 means one per CPU.
	Shards int
	// Budget of wall time for the enumeration; 0 means the default.
	Quick, Thorough time.Duration
	HangAfter       time.Duration
	GC              int // garbage collection percentage of the workers
	// Drop makes the workers unprivileged users who own nothing but their scratch directory.
	Drop bool
	// NoRaces lists what may race (as parts of names of functions), when races are detected.
	NoRaces []string
}

// Ctx is handed to the enumeration.
type Ctx struct {
	spec    Spec
	tier    string
	shard   int64
	shards  int64
	next    int64
	only    int64 // replay of one case, or -1
	trace   []byte // shared with the parent: the number of the running case
	stop    atomic.Bool
	res     result
	states  map[uint64]struct{}
	started time.Time
	limit   time.Duration
	curCase atomic.Int64
	curFrom atomic.Int64
	scratch string
	known   map[string]bool
	mu      sync.Mutex
	maxViol int

	stopFile string
}

// Deep reports whether this is the thorough tier.
func (c *Ctx) Deep() bool { return c.tier == "thorough" }

// Pick returns quick or deep depending on the tier.
func Pick[T any](c *Ctx, quick, deep T) T {
	if c.Deep() {
		return deep
	}
	return quick
}

// Scratch is a directory for this process, on tmpfs where possible; it is removed at the end.
func (c *Ctx) Scratch() string { return c.scratch }

// Expired reports whether the time budget is used up.
func (c *Ctx) Expired() bool {
	if c.only >= 0 {
		return false
	}
	if time.Since(c.started) > c.limit {
		c.res.Truncated = true
		return true
	}
	return false
}

// Trunc records that the space was not covered completely.
func (c *Ctx) Trunc(why string) {
	c.res.Truncated = true
	c.Note("%s", why)
}

// Trans counts transitions (operations applied to the implementation).
func (c *Ctx) Trans(n int) { c.res.Trans += int64(n) }

// Add adds to a named counter of the evidence.
func (c *Ctx) Add(name string, n int64) {
	if c.res.Extra == nil {
		c.res.Extra = map[string]int64{}
	}
	c.res.Extra[name] += n
}

// State records a reached (model) state.
func (c *Ctx) State(h uint64) { c.states[h] = struct{}{} }

// Hash hashes a string.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// StateOf records a reached state by its textual form.
func (c *Ctx) StateOf(s string) { c.State(Hash(s)) }

// Nontrivial counts a case as non-trivial.
func (c *Ctx) Nontrivial() { c.res.Nontrivial++ }

// Note adds a note.
func (c *Ctx) Note(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Notes) < 20 {
		c.res.Notes = append(c.res.Notes, fmt.Sprintf(format, args...))
	}
}

// Skip is returned by a case that turned out not to be applicable.
var Skip = errors.New("skip")

// KeyedError is a failure with an identity that may be listed as a known finding.
type KeyedError struct {
	Key string
	Err error
}

func (k KeyedError) Error() string { return k.Err.Error() }

// Keyed gives err an identity.
func Keyed(key string, err error) error {
	if err == nil {
		return nil
	}
	return KeyedError{key, err}
}

// Mine reserves the next case number and reports if this process has to run it.
func (c *Ctx) Mine() bool {
	i := c.next
	if c.only >= 0 {
		return i == c.only
	}
	return i%c.shards == c.shard
}

// Case runs one case of the enumeration if it belongs to this process.
// desc is only called if a description is needed.
func (c *Ctx) Case(desc func() string, body func() error) {
	i := c.next
	c.next++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i%c.shards != c.shard {
		return
	}
	if c.stop.Load() || c.Expired() || len(c.res.Violations) >= c.maxViol {
		return
	}
	if c.trace != nil {
		binary.LittleEndian.PutUint64(c.trace, uint64(i)+1)
	}
	c.curCase.Store(i)
	c.curFrom.Store(time.Now().UnixNano())
	err := protect(body)
	if err == Skip {
		c.curFrom.Store(0)
		return
	}
	c.res.Cases++
	n := len(c.res.Samples)
	if n < 3 || (n < 6 && c.res.Cases%5003 == 0) {
		c.res.Samples = append(c.res.Samples, clip(desc(), 400))
	}
	if err != nil {
		// a failure has to show at least once more
		confirmed := false
		from := time.Now()
		for try := 0; try < 40 && !confirmed && (try < 2 || time.Since(from) < 45*time.Second); try++ {
			c.curFrom.Store(time.Now().UnixNano())
			e2 := protect(body)
			confirmed = e2 != nil && e2 != Skip
		}
		if confirmed {
			v := Violation{Property: c.spec.Property, Case: i, Desc: desc(), Err: clip(err.Error(), 6000), Tier: c.tier}
			var ke KeyedError
			if errors.As(err, &ke) {
				v.Key = ke.Key
			}
			c.mu.Lock()
			c.res.Violations = append(c.res.Violations, v)
			if v.Key != "" && c.known[v.Key] {
				c.maxViol++ // listed findings do not use up the limit
			} else if c.stopFile != "" {
				// one confirmed violation is enough: the others need not go on
				os.WriteFile(c.stopFile, []byte("stop"), 0o666)
			}
			c.mu.Unlock()
		} else {
			c.Note("case %d failed once and never again: %s: %s", i, clip(desc(), 300), clip(err.Error(), 300))
			c.res.Truncated = true
		}
	}
	c.curFrom.Store(0)
}

func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) watchdog(resultPath string) {
	after := c.spec.HangAfter
	if after == 0 {
		after = 100 * time.Second
	}
	for {
		time.Sleep(500 * time.Millisecond)
		if c.stopFile != "" {
			if st, err := os.Stat(c.stopFile); err == nil && st.Size() > 0 {
				c.stop.Store(true)
			}
		}
		from := c.curFrom.Load()
		if from == 0 {
			continue
		}
		if time.Since(time.Unix(0, from)) > after {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(resultPath+".hang", []byte(fmt.Sprintf("%d\n%s", c.curCase.Load(), buf)), 0o644)
			os.Exit(3)
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
}

func loadKnown(prop string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return out
	}
	var kf knownFile
	if err := json.Unmarshal(data, &kf); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range kf.Findings {
		if f.Property == prop {
			out[f.Key] = f.What
		}
	}
	return out
}

// Main runs a check; it does not return.
func Main(spec Spec, enumerate func(c *Ctx)) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if os.Getenv("KIT_CHILD") != "" {
		child(spec, tier, enumerate)
		os.Exit(0)
	}
	os.Exit(parent(spec, tier))
}

func newCtx(spec Spec, tier string) *Ctx {
	c := &Ctx{spec: spec, tier: tier, only: -1, shards: 1, states: map[uint64]struct{}{}, started: time.Now(), maxViol: 3}
	c.known = map[string]bool{}
	for k := range loadKnown(spec.Property) {
		c.known[k] = true
	}
	c.limit = spec.Quick
	if c.limit == 0 {
		c.limit = 150 * time.Second
	}
	if tier == "thorough" {
		c.limit = spec.Thorough
		if c.limit == 0 {
			c.limit = 700 * time.Second
		}
	}
	return c
}

func child(spec Spec, tier string, enumerate func(c *Ctx)) {
	c := newCtx(spec, tier)
	c.shard, _ = strconv.ParseInt(os.Getenv("KIT_SHARD"), 10, 64)
	c.shards, _ = strconv.ParseInt(os.Getenv("KIT_SHARDS"), 10, 64)
	if o := os.Getenv("KIT_ONLY"); o != "" {
		c.only, _ = strconv.ParseInt(o, 10, 64)
	}
	out := os.Getenv("KIT_OUT")
	if f, err := os.Create(out + ".trace"); err == nil {
		if err := f.Truncate(8); err == nil {
			c.trace, _ = syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		f.Close()
	}
	if c.only < 0 {
		c.stopFile = filepath.Join(filepath.Dir(out), "stop")
	}
	c.scratch = os.Getenv("KIT_SCRATCH")
	if err := os.MkdirAll(c.scratch, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	if spec.Drop && os.Geteuid() == 0 {
		if err := drop(c.scratch); err != nil {
			fmt.Fprintln(os.Stderr, "dropping privileges:", err)
			os.Exit(4)
		}
	}
	if os.Getenv("GOGC") == "" {
		if spec.GC == 0 {
			spec.GC = 400
		}
		debug.SetGCPercent(spec.GC)
	}
	go c.watchdog(out)
	enumerate(c)
	c.curFrom.Store(0)
	data, err := json.Marshal(c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	f, err := os.Create(out + ".states")
	if err == nil {
		w := bufio.NewWriter(f)
		for h := range c.states {
			binary.Write(w, binary.LittleEndian, h)
		}
		w.Flush()
		f.Close()
	}
	if err := os.WriteFile(out+".json", data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.RemoveAll(c.scratch)
}

const nobody = 65534

// drop gives up all privileges.
func drop(scratch string) error {
	return errors.Join(os.Chown(scratch, nobody, nobody), syscall.Setgroups(nil), syscall.Setgid(nobody), syscall.Setuid(nobody))
}

// prepareDrop creates the files an unprivileged worker may write.
func prepareDrop(root, out string) error {
	if err := os.Chmod(root, 0o711); err != nil {
		return err
	}
	for _, ext := range []string{".json", ".states", ".hang", ".trace"} {
		if err := os.WriteFile(out+ext, nil, 0o600); err != nil {
			return err
		}
		if err := os.Chown(out+ext, nobody, nobody); err != nil {
			return err
		}
	}
	return nil
}

type childEnd struct {
	res    *result
	crash  string // non-empty: output of a crashed child
	killed bool
	hang   bool
	at     int64
	states string // file of the visited states
}

func scratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if st, err := os.Stat(d); err == nil && st.IsDir() {
			if p, err := os.MkdirTemp(d, "verif-"); err == nil {
				return p
			}
		}
	}
	p, _ := os.MkdirTemp("", "verif-")
	return p
}

// stalled is the exit code of a worker in which a thread blocked in a way that the controlled
// scheduler does not know: it runs again without control
const stalled = 77

func runChild(spec Spec, root string, shard, shards int, only int64, again bool, hard time.Duration) childEnd {
	end, code := runChildOnce(spec, root, shard, shards, only, again, hard, false)
	if code == stalled {
		end, _ = runChildOnce(spec, root, shard, shards, only, again, hard, true)
		if end.res != nil {
			end.res.Truncated = true
			end.res.Notes = append(end.res.Notes, "a thread blocked outside of the scheduler; schedules were not controlled")
		}
	}
	return end
}

func runChildOnce(spec Spec, root string, shard, shards int, only int64, again bool, hard time.Duration, free bool) (_ childEnd, code int) {
	out := filepath.Join(root, fmt.Sprintf("r%d-%d-%v", shard, only, again))
	cmd := exec.Command("/proc/self/exe")
	cmd.Args[0] = os.Args[0]
	cmd.Env = append(os.Environ(), "KIT_CHILD=1",
		fmt.Sprintf("KIT_SHARD=%d", shard), fmt.Sprintf("KIT_SHARDS=%d", shards),
		"KIT_OUT="+out, "KIT_SCRATCH="+out+".d", "TMPDIR="+root, "GORACE=halt_on_error=1 atexit_sleep_ms=0")
	if len(spec.NoRaces) > 0 {
		list := filepath.Join(root, "noraces")
		text := ""
		for _, f := range spec.NoRaces {
			text += "race:" + f + "\n"
		}
		if err := os.WriteFile(list, []byte(text), 0o644); err == nil {
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 atexit_sleep_ms=0 suppressions="+list)
		}
	}
	if free {
		cmd.Env = append(cmd.Env, "VSCHED_FREE=1")
	}
	if only >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("KIT_ONLY=%d", only))
	}
	if os.Getenv("GOMEMLIMIT") == "" {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMEMLIMIT=%dMiB", 16000/max(shards, 6)))
	}
	if os.Getenv("GOMAXPROCS") == "" && shards > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	ef, err := os.Create(out + ".stderr")
	if err != nil {
		return childEnd{crash: err.Error(), killed: true, at: -1}, 0
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	if spec.Drop && os.Geteuid() == 0 {
		if err := prepareDrop(root, out); err != nil {
			return childEnd{crash: err.Error(), killed: true, at: -1}, 0
		}
	}
	if err := cmd.Start(); err != nil {
		return childEnd{crash: err.Error(), killed: true, at: -1}, 0
	}
	timer := time.AfterFunc(hard, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	ef.Close()
	stderr, _ := os.ReadFile(out + ".stderr")
	os.RemoveAll(out + ".d")
	if data, e := os.ReadFile(out + ".json"); e == nil && err == nil {
		var r result
		if e := json.Unmarshal(data, &r); e == nil {
			return childEnd{res: &r, at: -1, states: out + ".states"}, 0
		}
	}
	end := childEnd{at: -1}
	if data, e := os.ReadFile(out + ".hang"); e == nil && len(data) > 0 {
		end.hang = true
		line, rest, _ := strings.Cut(string(data), "\n")
		end.at, _ = strconv.ParseInt(line, 10, 64)
		end.crash = "hang: the case did not finish\n" + clip(rest, 20000)
		return end, code
	}
	if data, e := os.ReadFile(out + ".trace"); e == nil && len(data) == 8 {
		end.at = int64(binary.LittleEndian.Uint64(data)) - 1
	}
	end.crash = fmt.Sprintf("%v\n%s", err, tailOf(string(stderr)))
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		code = xe.ExitCode()
	}
	if errors.As(err, &xe) && xe.ExitCode() == 2 && strings.Contains(string(stderr), "goroutine ") &&
		!strings.Contains(string(stderr), "out of memory") {
		// a Go panic or fatal error
	} else if errors.As(err, &xe) && xe.ExitCode() == 66 {
		// the race detector with halt_on_error
	} else {
		end.killed = true
	}
	return end, code
}

func tailOf(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	return clip(s, 20000)
}

func parent(spec Spec, tier string) int {
	start := time.Now()
	root := scratchRoot()
	defer os.RemoveAll(root)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	if len(os.Args) >= 3 && os.Args[1] == "-replay" {
		return replay(spec, root, os.Args[2])
	}

	shards := spec.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	c := newCtx(spec, tier)
	hard := c.limit + 150*time.Second

	stop := filepath.Join(root, "stop")
	if err := os.WriteFile(stop, nil, 0o666); err == nil {
		os.Chmod(stop, 0o666)
	}
	ends := make([]childEnd, shards)
	each := func(f func(i int)) {
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); f(i) }()
		}
		wg.Wait()
	}
	crashed := make([]*Violation, shards)
	each(func(i int) {
		e := runChild(spec, root, i, shards, -1, false, hard)
		ends[i] = e
		// crash or hang: confirm the case on its own
		if e.res != nil || e.killed || e.at < 0 {
			return
		}
		if e3 := runChild(spec, root, i, shards, e.at, false, hard); e3.res == nil && !e3.killed {
			crashed[i] = &Violation{Property: spec.Property, Case: e.at, Tier: tier,
				Desc: fmt.Sprintf("case %d of the %s enumeration crashes or hangs the process", e.at, tier), Err: clip(e3.crash, 20000)}
			os.WriteFile(stop, []byte("stop"), 0o666)
		}
	})
	if st, err := os.Stat(stop); err == nil && st.Size() == 0 {
		// a crash that was not confirmed may need its history: all of the worker again
		each(func(i int) {
			e := ends[i]
			if e.res != nil || e.killed {
				return
			}
			e4 := runChild(spec, root, i, shards, -1, true, hard)
			if e4.res == nil && !e4.killed {
				crashed[i] = &Violation{Property: spec.Property, Case: e4.at, Tier: tier,
					Desc: fmt.Sprintf("case %d of the %s enumeration crashes or hangs the process after the cases before it", e4.at, tier), Err: clip(e4.crash, 20000)}
				return
			}
			if e4.res != nil {
				e4.res.Truncated = true
				e4.res.Notes = append(e4.res.Notes, "a worker crashed once and not again: "+clip(e.crash, 2000))
			}
			ends[i] = e4
		})
	}

	var total result
	total.Extra = map[string]int64{}
	states := map[uint64]struct{}{}
	for i := range ends {
		e := ends[i]
		if crashed[i] != nil {
			total.Violations = append(total.Violations, *crashed[i])
			continue
		}
		if e.res == nil && !e.killed {
			total.Notes = append(total.Notes, "a worker crashed, which was not tried again: "+clip(e.crash, 2000))
			total.Truncated = true
			continue
		}
		if e.res == nil {
			total.Notes = append(total.Notes, "a worker ended early: "+clip(e.crash, 2000))
			total.Truncated = true
			fmt.Fprintln(os.Stderr, "worker ended early:", clip(e.crash, 4000))
			if e.killed && strings.Contains(e.crash, "exit status") {
				// the harness itself failed
				return 2
			}
			continue
		}
		r := e.res
		total.Cases += r.Cases
		total.Trans += r.Trans
		total.Nontrivial += r.Nontrivial
		total.Truncated = total.Truncated || r.Truncated
		for k, v := range r.Extra {
			total.Extra[k] += v
		}
		if len(total.Samples) < 8 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.Violations = append(total.Violations, r.Violations...)
		total.Notes = append(total.Notes, r.Notes...)
		if data, err := os.ReadFile(e.states); err == nil {
			for j := 0; j+8 <= len(data); j += 8 {
				states[binary.LittleEndian.Uint64(data[j:])] = struct{}{}
			}
		}
	}
	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	if len(total.Notes) > 30 {
		total.Notes = total.Notes[:30]
	}

	// known findings
	known := loadKnown(spec.Property)
	seen := map[string]bool{}
	var viol []Violation
	for _, v := range total.Violations {
		if what, ok := known[v.Key]; ok && v.Key != "" {
			if !seen[v.Key] {
				seen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Property, what)
			}
			continue
		}
		viol = append(viol, v)
	}
	sort.Slice(viol, func(i, j int) bool { return viol[i].Case < viol[j].Case })

	cov := map[string]any{"samples": total.Samples}
	switch spec.Level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = total.Trans
		cov["traces_validated_against_impl"] = total.Cases
	default:
		cov["evaluations"] = total.Cases
		cov["distinct_nontrivial"] = total.Nontrivial
		if len(states) > 0 {
			cov["distinct_states"] = len(states)
		}
	}
	cov["rule"] = spec.Rule
	cov["exhaustive"] = !total.Truncated && len(total.Violations) == 0
	for k, v := range total.Extra {
		cov[k] = v
	}
	if len(total.Notes) > 0 {
		cov["notes"] = total.Notes
	}
	ev := map[string]any{
		"property": spec.Property, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": cov, "assumptions": spec.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, spec.Property+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, truncated=%v, %.1fs\n", spec.Property, tier, total.Cases, len(states), total.Trans, total.Truncated, time.Since(start).Seconds())
	for _, n := range total.Notes {
		fmt.Println("note:", clip(n, 1000))
	}
	if len(viol) == 0 {
		return 0
	}
	for i, v := range viol {
		if i >= 5 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s.violation%d.json", spec.Property, i))
		d, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(d, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", spec.Property, path, clip(v.Desc, 1500), clip(v.Err, 1500))
	}
	return 1
}

func replay(spec Spec, root, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Setenv("VERIF_TIER", v.Tier)
	e := runChild(spec, root, 0, 1, v.Case, false, 300*time.Second)
	if e.res == nil {
		fmt.Println("crash:", e.crash)
		return 1
	}
	for _, w := range e.res.Violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n%s\n", spec.Property, path, w.Desc, w.Err)
	}
	if len(e.res.Violations) > 0 {
		return 1
	}
	fmt.Println("no violation on replay")
	return 0
}
