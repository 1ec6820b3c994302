// Package chk runs checks: it enumerates cases in a fixed order, spreads them over processes,
// counts what was covered, writes the evidence file and reports violations with a replay file.
package chk

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Run         func(*C)
	Bounds      string   // what is enumerated
	Assumptions []string // what is taken for granted
	Procs       int      // processes (0: number of cores)
}

// C is a running check.
type C struct {
	Prop, Tier string
	Thorough   bool
	Shard, N   int
	only       int64 // replay: the only case to run
	extra      json.RawMessage
	idx        int64
	deadline   time.Time
	res        result
	states     map[uint64]struct{}
	tick       int64
	desc       func() string
	mu         sync.Mutex

	// Again, if set, is asked after the n-th run of a case (from 0) whether to run it once more.
	Again func(n int) bool
}

type result struct {
	Cases, Trans, Traces int64
	Exhaustive           bool
	Samples              []any
	Counts               map[string]int64
	Violation            *Violation
	Done                 bool
}

// Violation of a property.
type Violation struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Case     int64           `json:"case"`
	Desc     string          `json:"input"`
	Msg      string          `json:"violation"`
	Extra    json.RawMessage `json:"extra,omitempty"`
	Detail   []string        `json:"detail,omitempty"`
}

type failure struct {
	msg    string
	extra  any
	detail []string
}

// Failf reports a violation in the current case.
func Failf(format string, a ...any) { panic(&failure{msg: fmt.Sprintf(format, a...)}) }

// FailExtra reports a violation with data needed to replay it.
func FailExtra(msg string, extra any, detail []string) { panic(&failure{msg, extra, detail}) }

// FailWrap rethrows a recovered violation or panic with a prefix naming the input.
func FailWrap(r any, prefix string) {
	switch x := r.(type) {
	case *failure:
		panic(&failure{prefix + x.msg, x.extra, x.detail})
	default:
		if r == errTime || r == errStop {
			panic(r)
		}
		panic(&failure{msg: fmt.Sprintf("%spanic: %v", prefix, r), detail: strings.Split(string(debug.Stack()), "\n")})
	}
}

// Extra is the replay data of FailExtra, if a replay is under way.
func (c *C) Extra(v any) bool {
	if len(c.extra) == 0 || string(c.extra) == "null" {
		return false
	}
	return json.Unmarshal(c.extra, v) == nil
}

// Replaying tells whether a single case is replayed.
func (c *C) Replaying() bool { return c.only >= 0 }

// Case runs f as the next case if it belongs to this process.
func (c *C) Case(desc func() string, f func()) {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if int(i%int64(c.N)) != c.Shard {
		return
	}
	c.runCase(i, desc, f)
}

func (c *C) runCase(i int64, desc func() string, f func()) {
	if c.only < 0 && c.res.Cases&15 == 0 && time.Now().After(c.deadline) {
		c.res.Exhaustive = false
		panic(errTime)
	}
	c.mu.Lock()
	c.desc = desc
	c.mu.Unlock()
	atomic.AddInt64(&c.tick, 1)
	c.res.Cases++
	defer func() {
		if r := recover(); r != nil {
			if r == errTime {
				panic(r)
			}
			v := &Violation{Property: c.Prop, Tier: c.Tier, Case: i, Desc: desc()}
			if fl, ok := r.(*failure); ok {
				v.Msg = fl.msg
				v.Detail = fl.detail
				if fl.extra != nil {
					v.Extra, _ = json.Marshal(fl.extra)
				}
			} else {
				v.Msg = fmt.Sprintf("panic: %v", r)
				v.Detail = strings.Split(string(debug.Stack()), "\n")
			}
			c.res.Violation = v
			panic(errStop)
		}
	}()
	start := time.Now()
	f()
	for n := 0; c.Again != nil && c.Again(n); n++ {
		f()
	}
	if slow > 0 && time.Since(start) > slow {
		fmt.Fprintf(os.Stderr, "case %d took %.1fs: %s\n", i, time.Since(start).Seconds(), desc())
	}
	if len(c.res.Samples) < 2 {
		c.Sample(desc())
	}
}

// slow is the duration (MC_SLOW) from which a case is reported as slow, for development.
var slow, _ = time.ParseDuration(os.Getenv("MC_SLOW"))

var errTime = fmt.Errorf("time is up")
var errStop = fmt.Errorf("violation")

// TimeUp ends the enumeration early if the time is up, marking the run as not exhaustive.
func (c *C) TimeUp() bool {
	if c.only < 0 && time.Now().After(c.deadline) {
		c.res.Exhaustive = false
		return true
	}
	return false
}

// Deadline of the run.
func (c *C) Deadline() time.Time { return c.deadline }

// NotExhaustive notes that a bound was not reached.
func (c *C) NotExhaustive() { c.res.Exhaustive = false }

// Alive tells the watchdog that the case makes progress.
func (c *C) Alive() { atomic.AddInt64(&c.tick, 1) }

// State notes a model state that was reached.
func (c *C) State(h uint64) {
	if len(c.states) < 1<<20 {
		c.states[h] = struct{}{}
	}
}

// CaseHash identifies the current case.
func (c *C) CaseHash() uint64 { return uint64(c.idx) * 0x9E3779B97F4A7C15 }

// Trans counts operations performed on the implementation and checked.
func (c *C) Trans(n int) { c.res.Trans += int64(n) }

// Trace counts complete executions of the implementation compared with the model.
func (c *C) Trace() { c.res.Traces++ }

// Count adds to a named counter.
func (c *C) Count(name string, n int) { c.res.Counts[name] += int64(n) }

// Sample keeps an example for the evidence.
func (c *C) Sample(v any) {
	if len(c.res.Samples) < 6 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Hash of bytes (FNV-1a), seeded.
func Hash(seed uint64, p ...[]byte) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for _, b := range p {
		for _, x := range b {
			h ^= uint64(x)
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

// HashS hashes a string.
func HashS(seed uint64, s string) uint64 { return Hash(seed, []byte(s)) }

func (c *C) watchdog(limit time.Duration, out string) {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(time.Second)
		t := atomic.LoadInt64(&c.tick)
		if t != last {
			last, since = t, time.Now()
			continue
		}
		if time.Since(since) > limit && t > 0 {
			c.mu.Lock()
			d := c.desc()
			c.mu.Unlock()
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r := result{Counts: map[string]int64{}, Violation: &Violation{Property: c.Prop, Tier: c.Tier, Case: c.idx - 1, Desc: d, Msg: fmt.Sprintf("no progress for %v: the code under test does not return", limit), Detail: strings.Split(string(buf), "\n")}, Done: true}
			b, _ := json.Marshal(r)
			os.WriteFile(out, b, 0o644)
			os.Exit(0)
		}
	}
}

// Main is the entry point of a check binary.
func Main(checks []*Check) {
	prop := flag.String("prop", "", "property")
	shard := flag.Int("shard", -1, "")
	n := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	root := flag.String("root", "/verif", "")
	replay := flag.String("replay", "", "replay file")
	secs := flag.Int("seconds", 0, "time limit")
	note := flag.String("note", "", "note for the evidence")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var ck *Check
	for _, k := range checks {
		if k.ID == *prop {
			ck = k
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	limit := 240
	if tier == "thorough" {
		limit = 800
	}
	if *secs > 0 {
		limit = *secs
	}
	if *shard >= 0 {
		child(ck, tier, *shard, *n, *out, *replay, limit)
		return
	}
	os.Exit(parent(ck, tier, *root, *replay, limit, *note))
}

// Stdout is the original standard output; children have os.Stdout on /dev/null because the code
// under test prints.
var Stdout *os.File

func child(ck *Check, tier string, shard, n int, out, replay string, limit int) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		Stdout = os.Stdout
		os.Stdout = null
	}
	c := &C{Prop: ck.ID, Tier: tier, Thorough: tier == "thorough", Shard: shard, N: n, only: -1, states: map[uint64]struct{}{}, deadline: time.Now().Add(time.Duration(limit) * time.Second)}
	c.res.Exhaustive = true
	c.res.Counts = map[string]int64{}
	if replay != "" {
		b, err := os.ReadFile(replay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.only, c.extra, c.Tier, c.Thorough = v.Case, v.Extra, v.Tier, v.Tier == "thorough"
		c.N = 1
	}
	go c.watchdog(150*time.Second, out)
	func() {
		defer func() {
			if r := recover(); r != nil && r != errTime && r != errStop {
				fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s", r, debug.Stack())
				os.Exit(3)
			}
		}()
		ck.Run(c)
	}()
	c.res.Done = true
	f, err := os.Create(out + ".states")
	if err == nil {
		w := bufio.NewWriter(f)
		var b [8]byte
		for h := range c.states {
			binary.LittleEndian.PutUint64(b[:], h)
			w.Write(b[:])
		}
		w.Flush()
		f.Close()
	}
	b, _ := json.Marshal(c.res)
	os.WriteFile(out, b, 0o644)
}

func parent(ck *Check, tier, root, replay string, limit int, note string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	n := ck.Procs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 2 {
			n = 2
		}
	}
	if replay != "" {
		n = 1
	}
	os.MkdirAll(filepath.Join(root, "build"), 0o755)
	dir, err := os.MkdirTemp(filepath.Join(root, "build"), "run-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	type done struct {
		i   int
		err error
	}
	ch := make(chan done, n)
	cmds := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		args := []string{"-prop", ck.ID, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-out", filepath.Join(dir, fmt.Sprint(i)), "-seconds", fmt.Sprint(limit)}
		if replay != "" {
			args = append(args, "-replay", replay)
		}
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
		e, _ := os.Create(filepath.Join(dir, fmt.Sprintf("%d.err", i)))
		cmd.Stderr = e
		if slow > 0 {
			cmd.Stderr = os.Stderr
		}
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func(i int) { ch <- done{i, cmd.Wait()} }(i)
	}
	tot := result{Exhaustive: true, Counts: map[string]int64{}}
	states := map[uint64]struct{}{}
	var viol *Violation
	bad := ""
	stopped := false
	timeout := time.After(time.Duration(limit+60) * time.Second)
	for left := n; left > 0; {
		var d done
		select {
		case d = <-ch:
		case <-timeout:
			// a case is taking long; what was explored so far held
			for _, c := range cmds {
				c.Process.Kill()
			}
			stopped = true
			tot.Exhaustive = false
			timeout = nil
			continue
		}
		left--
		b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprint(d.i)))
		var r result
		if rerr == nil {
			rerr = json.Unmarshal(b, &r)
		}
		if rerr != nil || !r.Done {
			if stopped {
				continue
			}
			e, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%d.err", d.i)))
			s := string(e)
			if strings.Contains(s, "HARNESS:") || !(strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "runtime: ") || strings.Contains(s, "unexpected fault")) {
				if bad == "" {
					bad = fmt.Sprintf("process %d: %v\n%.4000s", d.i, d.err, s)
				}
				continue
			}
			lines := strings.Split(s, "\n")
			if len(lines) > 200 {
				lines = lines[:200]
			}
			r.Violation = &Violation{Property: ck.ID, Tier: tier, Case: -1, Desc: fmt.Sprintf("process %d of %d", d.i, n), Msg: "the process running the code under test crashed", Detail: lines}
		}
		tot.Cases += r.Cases
		tot.Trans += r.Trans
		tot.Traces += r.Traces
		tot.Exhaustive = tot.Exhaustive && r.Exhaustive
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		if len(tot.Samples) < 6 {
			for _, s := range r.Samples {
				if len(tot.Samples) < 6 {
					tot.Samples = append(tot.Samples, s)
				}
			}
		}
		if f, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%d.states", d.i))); err == nil {
			for i := 0; i+8 <= len(f); i += 8 {
				states[binary.LittleEndian.Uint64(f[i:])] = struct{}{}
			}
		}
		if r.Violation != nil {
			if viol == nil || (r.Violation.Case >= 0 && (viol.Case < 0 || r.Violation.Case < viol.Case)) {
				viol = r.Violation
			}
			if !stopped {
				stopped = true
				for _, c := range cmds {
					c.Process.Kill()
				}
			}
		}
	}
	if viol == nil && bad != "" {
		fmt.Fprintln(os.Stderr, "check failed to run:", bad)
		return 2
	}
	nv := 0
	if viol != nil {
		nv = 1
		tot.Exhaustive = false
	}
	if tot.Samples == nil {
		tot.Samples = []any{}
	}
	cov := map[string]any{
		"states": len(states), "transitions": tot.Trans, "traces_validated_against_impl": tot.Traces,
		"samples": tot.Samples, "exhaustive": tot.Exhaustive, "bounds": ck.Bounds, "cases": tot.Cases,
	}
	keys := make([]string, 0)
	for k := range tot.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = tot.Counts[k]
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if note != "" {
		cov["note"] = note
	}
	if replay == "" {
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s: %d cases, %d states, %d operations checked, %d executions compared with the model, exhaustive within bounds: %v, %.1fs\n", ck.ID, tot.Cases, len(states), tot.Trans, tot.Traces, tot.Exhaustive, time.Since(start).Seconds())
	if viol != nil {
		path := replay
		if path == "" {
			os.MkdirAll(filepath.Join(root, "replays"), 0o755)
			path = filepath.Join(root, "replays", ck.ID+".json")
			b, _ := json.MarshalIndent(viol, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
		}
		fmt.Printf("input: %s\n%s\n", viol.Desc, viol.Msg)
		for i, d := range viol.Detail {
			if i > 40 {
				break
			}
			fmt.Println("  " + d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		return 1
	}
	return 0
}
