// Engine: exhaustive enumeration of cases (behaviours) of the real code, with
// sharded child processes, crash containment, replay and evidence writing.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// T is one case: a behaviour of the code that is run and judged.
type T struct {
	c       *Ctx
	fails   []failure
	scratch map[string]int
}

type failure struct{ key, msg string }

// Ctx is one shard's exploration of one property.
type Ctx struct {
	Prop       string
	Tier       string
	Thorough   bool
	Seed       int64
	shard, n   int
	only       int64 // replay: run only this case index
	idx        int64 // index of the next case
	ran        int64
	deadline   time.Time
	truncated  bool
	states     map[uint64]struct{}
	outcomes   map[uint64]struct{}
	dims       map[string]map[uint64]struct{}
	trans      int64
	validated  int64
	samples    []string
	violations []violation
	nviol      int64
	keyCount   map[string]int
	cur        []byte // mmap: current case index + start time
	notes      map[string]int64
	weighted   bool
	curID      func() string
}

type violation struct {
	Index  int64  `json:"index"`
	ID     string `json:"id"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Failf records a violation whose key is the case id.
func (t *T) Failf(format string, a ...any) {
	t.fails = append(t.fails, failure{"", fmt.Sprintf(format, a...)})
}

// FailKey records a violation under an explicit key (a call site or input class).
func (t *T) FailKey(key, format string, a ...any) {
	t.fails = append(t.fails, failure{key, fmt.Sprintf(format, a...)})
}
func (t *T) Failed() bool { return len(t.fails) > 0 }

func h64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// State records a reached (canonicalised) state of the system under check.
func (t *T) State(s string)       { t.c.states[h64([]byte(s))] = struct{}{} }
func (t *T) StateBytes(b []byte)  { t.c.states[h64(b)] = struct{}{} }
func (t *T) Trans(n int)          { t.c.trans += int64(n) }
func (t *T) Validated()           { t.c.validated++ }
func (t *T) Outcome(s string)     { t.c.outcomes[h64([]byte(s))] = struct{}{} }
func (t *T) Note(k string)        { t.c.notes[k]++ }
func (t *T) Dim(name, val string) { t.c.Dim(name, val) }
func (c *Ctx) Dim(name, val string) {
	m := c.dims[name]
	if m == nil {
		m = map[uint64]struct{}{}
		c.dims[name] = m
	}
	m[h64([]byte(val))] = struct{}{}
}

func idOf(parts []any) string {
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			b.WriteByte('|')
		}
		switch v := p.(type) {
		case func() string:
			b.WriteString(v())
		default:
			fmt.Fprint(&b, v)
		}
	}
	return b.String()
}

// Case runs one behaviour. f must judge it by calling t.Failf. A panic that
// escapes f is a violation.
func (c *Ctx) Case(f func(t *T), id ...any) {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else {
		if int(i%int64(c.n)) != c.shard {
			return
		}
		if c.truncated {
			return
		}
		if time.Now().After(c.deadline) {
			c.truncated = true
			return
		}
	}
	c.ran++
	if c.cur != nil {
		atomic.StoreInt64((*int64)(unsafe.Pointer(&c.cur[0])), i)
		atomic.StoreInt64((*int64)(unsafe.Pointer(&c.cur[8])), time.Now().Unix())
	}
	t := c.run1(f)
	if os.Getenv("MC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "case %d: %s (%d fails)\n", i, idOf(id), len(t.fails))
	}
	if len(c.samples) < 12 && (c.ran <= 3 || c.ran&(c.ran-1) == 0) {
		c.samples = append(c.samples, clip(idOf(id), 300))
	}
	if len(t.fails) == 0 {
		return
	}
	// Re-run to make sure that the failure is reproducible; the number of
	// failing repetitions is recorded in the artefact.
	again := 0
	for k := 0; k < 5; k++ {
		if t2 := c.run1(f); len(t2.fails) > 0 {
			again++
		}
	}
	s := idOf(id)
	for _, fl := range t.fails {
		key := fl.key
		if key == "" {
			key = s
		}
		c.nviol++
		c.keyCount[key]++
		if c.keyCount[key] <= 3 && len(c.violations) < 400 {
			c.violations = append(c.violations, violation{i, s, key, fmt.Sprintf("%s [reproduced %d/5]", fl.msg, again)})
		}
	}
}

func (c *Ctx) run1(f func(t *T)) (t *T) {
	t = &T{c: c}
	defer func() {
		if r := recover(); r != nil {
			t.fails = append(t.fails, failure{"", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))})
		}
	}()
	f(t)
	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// catch runs f and returns the panic text, or "".
func catch(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v @ %s", r, strings.ReplaceAll(trimStack(debug.Stack()), "\n", " < "))
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------------------

type Check struct {
	Run    func(c *Ctx)
	Bounds string
	Assume []string
	// deadline in seconds for exploration, by tier
	Quick, Thorough int
	Shards          int
}

var checks = map[string]*Check{}

type childReport struct {
	States, Outcomes []uint64
	Dims             map[string][]uint64
	Trans, Validated int64
	Ran, Total       int64
	Samples          []string
	Violations       []violation
	NViol            int64
	KeyCount         map[string]int
	Truncated        bool
	Notes            map[string]int64
}

func newCtx(prop, tier string, chk *Check) *Ctx {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	d := chk.Quick
	if tier == "thorough" {
		d = chk.Thorough
	}
	if d == 0 {
		d = 400
	}
	return &Ctx{Prop: prop, Tier: tier, Thorough: tier == "thorough", Seed: seed, n: 1, only: -1,
		deadline: time.Now().Add(time.Duration(d) * time.Second),
		states:   map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, dims: map[string]map[uint64]struct{}{},
		keyCount: map[string]int{}, notes: map[string]int64{}}
}

func keys(m map[uint64]struct{}) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

const hangSeconds = 200

func childMain(prop, tier string, shard, n int, only int64, curFile, outFile string) {
	chk := checks[prop]
	c := newCtx(prop, tier, chk)
	c.shard, c.n, c.only = shard, n, only
	debug.SetMaxStack(128 << 20)
	if curFile != "" {
		f, err := os.OpenFile(curFile, os.O_RDWR, 0)
		die(err)
		c.cur, err = syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		die(err)
		go func() {
			for {
				time.Sleep(time.Second)
				st := atomic.LoadInt64((*int64)(unsafe.Pointer(&c.cur[8])))
				if st != 0 && time.Now().Unix()-st > hangSeconds {
					buf := make([]byte, 1<<16)
					k := runtime.Stack(buf, true)
					fmt.Fprintf(os.Stderr, "HANG: case over %d s\n%s\n", hangSeconds, trimStack(buf[:k]))
					os.Exit(97)
				}
			}
		}()
	}
	// The library may print; keep the report channel clean.
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	die(err)
	os.Stdout = null
	chk.Run(c)
	rep := childReport{States: keys(c.states), Outcomes: keys(c.outcomes), Dims: map[string][]uint64{}, Trans: c.trans,
		Validated: c.validated, Ran: c.ran, Total: c.idx, Samples: c.samples, Violations: c.violations, NViol: c.nviol,
		KeyCount: c.keyCount, Truncated: c.truncated, Notes: c.notes}
	for k, v := range c.dims {
		rep.Dims[k] = keys(v)
	}
	b, err := json.Marshal(rep)
	die(err)
	die(os.WriteFile(outFile, b, 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: error:", err)
		os.Exit(3)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	die(json.Unmarshal(b, &f))
	return f.Findings
}

type shardResult struct {
	rep    *childReport
	crash  string
	curIdx int64
}

func runShard(self, tmp, prop, tier string, shard, n int, only int64) shardResult {
	cur := filepath.Join(tmp, fmt.Sprintf("cur.%d.%d", shard, only))
	out := filepath.Join(tmp, fmt.Sprintf("out.%d.%d", shard, only))
	os.Remove(out)
	z := make([]byte, 16)
	binary.LittleEndian.PutUint64(z, ^uint64(0))
	die(os.WriteFile(cur, z, 0o644))
	cmd := exec.Command(self, "-child", "-prop", prop, "-tier", tier, "-shard", fmt.Sprint(shard), "-n", fmt.Sprint(n),
		"-only", fmt.Sprint(only), "-cur", cur, "-out", out)
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 20}
	if os.Getenv("MC_TRACE") != "" {
		cmd.Stderr = os.Stderr
	}
	gmp := "2"
	if v := os.Getenv("MC_GOMAXPROCS"); v != "" {
		gmp = v
	}
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+gmp)
	err := cmd.Run()
	if err == nil {
		b, e := os.ReadFile(out)
		if e == nil {
			var r childReport
			die(json.Unmarshal(b, &r))
			return shardResult{rep: &r}
		}
		err = e
	}
	cb, _ := os.ReadFile(cur)
	idx := int64(-1)
	if len(cb) >= 8 {
		idx = int64(binary.LittleEndian.Uint64(cb))
	}
	return shardResult{crash: fmt.Sprintf("%v: %s", err, clipMid(eb.String())), curIdx: idx}
}

func clipMid(s string) string {
	if len(s) <= 2400 {
		return s
	}
	return s[:1800] + "\n…\n" + s[len(s)-600:]
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

func main() {
	child := flag.Bool("child", false, "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	shard := flag.Int("shard", 0, "")
	n := flag.Int("n", 1, "")
	only := flag.Int64("only", -1, "")
	cur := flag.String("cur", "", "")
	out := flag.String("out", "", "")
	root := flag.String("root", "/verif", "")
	replay := flag.String("replay", "", "replay artefact")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		die(err)
		var a struct {
			Property, Tier string
			Index          int64
			ID             string
		}
		die(json.Unmarshal(b, &a))
		*prop, *tier, *only = a.Property, a.Tier, a.Index
	}
	chk, ok := checks[*prop]
	if !ok {
		die(fmt.Errorf("unknown property %q", *prop))
	}
	if *child {
		childMain(*prop, *tier, *shard, *n, *only, *cur, *out)
		return
	}
	os.Exit(parentMain(chk, *prop, *tier, *root, *only))
}

func parentMain(chk *Check, prop, tier, root string, only int64) int {
	start := time.Now()
	self, err := os.Executable()
	die(err)
	tmp, err := os.MkdirTemp("", "mc-"+prop+"-")
	die(err)
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if chk.Shards > 0 {
		n = chk.Shards
	}
	if only >= 0 {
		n = 1
	}
	res := make([]shardResult, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = runShard(self, tmp, prop, tier, i, n, only)
		}()
	}
	wg.Wait()
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	dims := map[string]map[uint64]struct{}{}
	notes := map[string]int64{}
	var trans, validated, ran, total, nviol int64
	var samples []string
	var viol []violation
	truncated := false
	for i, r := range res {
		if r.rep == nil {
			if r.curIdx < 0 {
				fmt.Fprintf(os.Stderr, "mc: shard %d died before its first case: %s\n", i, r.crash)
				return 3
			}
			// A crash of the whole process: confirm it on the single case.
			conf := runShard(self, tmp, prop, tier, 0, 1, r.curIdx)
			detail := "process died while running this case: " + r.crash
			if conf.rep == nil {
				detail += "\n[reproduced when run alone]"
			} else {
				detail += "\n[not reproduced when run alone]"
			}
			nviol++
			truncated = true
			viol = append(viol, violation{Index: r.curIdx, ID: "crash", Key: fmt.Sprintf("crash@%d", r.curIdx), Detail: detail})
			continue
		}
		for _, s := range r.rep.States {
			states[s] = struct{}{}
		}
		for _, s := range r.rep.Outcomes {
			outcomes[s] = struct{}{}
		}
		for k, v := range r.rep.Dims {
			if dims[k] == nil {
				dims[k] = map[uint64]struct{}{}
			}
			for _, s := range v {
				dims[k][s] = struct{}{}
			}
		}
		for k, v := range r.rep.Notes {
			notes[k] += v
		}
		trans += r.rep.Trans
		validated += r.rep.Validated
		ran += r.rep.Ran
		nviol += r.rep.NViol
		if r.rep.Total > total {
			total = r.rep.Total
		}
		truncated = truncated || r.rep.Truncated
		samples = append(samples, r.rep.Samples...)
		viol = append(viol, r.rep.Violations...)
	}
	sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
	known := loadKnown(root)
	isKnown := func(v violation) *knownFinding {
		for i, k := range known {
			if k.Property == prop && k.Key == v.Key {
				return &known[i]
			}
		}
		return nil
	}
	printedKnown := map[string]bool{}
	bad := 0
	seen := map[string]bool{}
	for _, v := range viol {
		if k := isKnown(v); k != nil {
			if !printedKnown[k.Key] {
				printedKnown[k.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
			continue
		}
		bad++
		if seen[v.Key] || len(seen) >= 15 {
			continue
		}
		seen[v.Key] = true
		dir := filepath.Join(root, "out")
		os.MkdirAll(dir, 0o755)
		sum := sha256.Sum256([]byte(v.Key + v.ID))
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%x.json", prop, tier, v.Index, sum[:4]))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "tier": tier, "index": v.Index, "id": v.ID, "key": v.Key,
			"detail": v.Detail, "replay": "/verif/run.sh replay " + path}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  case: %s\n  %s\n", clip(v.ID, 600), strings.ReplaceAll(clip(v.Detail, 1800), "\n", "\n  "))
	}
	if only >= 0 {
		if bad > 0 {
			return 1
		}
		fmt.Printf("replay: case %d of %s (%s) holds\n", only, prop, tier)
		return 0
	}
	if len(samples) > 10 {
		step := len(samples) / 10
		var s []string
		for i := 0; i < len(samples) && len(s) < 10; i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	dimc := map[string]int{}
	for k, v := range dims {
		dimc[k] = len(v)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(states), "transitions": trans, "traces_validated_against_impl": validated,
			"behaviours_run": ran, "behaviours_in_space": total, "distinct_outcomes": len(outcomes),
			"distinct_by_dimension": dimc, "notes": notes,
			"exhaustive": !truncated, "samples": samples, "bounds": chk.Bounds,
		},
		"assumptions": append([]string{"bounds: " + chk.Bounds}, chk.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	die(os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: behaviours=%d/%d states=%d transitions=%d validated=%d outcomes=%d dims=%v notes=%v exhaustive=%v violations=%d wall=%.1fs\n",
		prop, tier, ran, total, len(states), trans, validated, len(outcomes), dimc, notes, !truncated, bad, time.Since(start).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}
