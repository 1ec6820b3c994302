package vsched_test

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"verifmc/vsched"
	"verifmc/vsched/vatomic"
	"verifmc/vsched/vsync"
)

// A random program: threads of a few operations each. Its outcome is what every thread observed
// and who is left blocked.
type prog struct {
	caps []int
	thr  [][]string
}

func (p *prog) run(out *string) func() {
	return func() {
		var chans []chan int
		for _, c := range p.caps {
			chans = append(chans, make(chan int, c))
		}
		done := make(chan struct{})
		var mu [2]vsync.Mutex
		var rw vsync.RWMutex
		var wg vsync.WaitGroup
		var at [2]vatomic.Int32
		var v [2]vsched.SyncVar
		var x, y, z [2]int
		logs := make([][]string, len(p.thr))
		closed := false
		show := func() {
			var b []string
			for _, l := range logs {
				b = append(b, strings.Join(l, " "))
			}
			*out = strings.Join(b, "|")
		}
		for i := range p.thr {
			i := i
			wg.Add(1)
			vsched.Go(func() {
				say := func(f string, a ...any) { logs[i] = append(logs[i], fmt.Sprintf(f, a...)); show() }
				for n, o := range p.thr[i] {
					val := i*10 + n + 1
					k := int(o[1] - '0')
					switch o[0] {
					case 'l': // critical section that sees and changes a variable
						mu[k].Lock()
						say("x%d", x[k])
						x[k] = x[k]*7 + val
						mu[k].Unlock()
					case 'm': // two locks
						mu[k].Lock()
						vsched.Point("p")
						mu[1-k].Lock()
						say("xx%d,%d", x[0], x[1])
						mu[1-k].Unlock()
						mu[k].Unlock()
					case 's':
						vsched.Send[int](chans[k])(val)
						say("s")
					case 'r':
						q, ok := vsched.Recv2[int](chans[k])
						say("r%d%v", q, ok)
					case 'a':
						say("a%d", at[k].Add(int32(val)))
					case 'o':
						say("o%d", at[k].Load())
					case 'p':
						vsched.Point("p")
					case 't':
						vsched.Point("t")
						v[k].Touch(true)
						say("t%d", z[k])
						z[k] = z[k]*5 + val
					case 'c':
						vsched.Point("c")
						v[0].Touch(true)
						if !closed {
							closed = true
							vsched.CloseNow[struct{}](done)
						}
					case 'w':
						vsched.Recv[struct{}](done)
						say("w")
					case 'S': // receive from one or be told to stop
						a, b := vsched.RecvCase[int](chans[k]), vsched.RecvCase[struct{}](done)
						if vsched.Select(false, a, b) == 0 {
							say("S%d", a.Val())
						} else {
							say("Sd")
						}
					case 'T': // send or stop
						a, b := vsched.SendCase[int](chans[k])(val), vsched.RecvCase[struct{}](done)
						say("T%d", vsched.Select(false, a, b))
					case 'U': // two channels
						a, b := vsched.RecvCase[int](chans[0]), vsched.RecvCase[int](chans[1])
						if vsched.Select(false, a, b) == 0 {
							say("U0%d", a.Val())
						} else {
							say("U1%d", b.Val())
						}
					case 'V': // send one way, receive another
						a, b := vsched.SendCase[int](chans[k])(val), vsched.RecvCase[int](chans[1-k])
						if vsched.Select(false, a, b) == 0 {
							say("Vs")
						} else {
							say("Vr%d", b.Val())
						}
					case 'D': // without waiting
						a := vsched.RecvCase[int](chans[k])
						if vsched.Select(true, a) == 0 {
							say("D%d", a.Val())
						} else {
							say("D-")
						}
					case 'g':
						rw.Lock()
						say("g%d", y[k])
						y[k] = y[k]*3 + val
						rw.Unlock()
					case 'h':
						rw.RLock()
						say("h%d", y[0])
						rw.RUnlock()
					case 'G':
						vsched.Go(func() {
							v[k].Touch(true)
							z[k] = z[k]*11 + val
						})
					}
				}
				wg.Done()
			})
		}
		wg.Wait()
		v[0].Touch(false)
		v[1].Touch(false)
		logs = append(logs, []string{fmt.Sprint("end", x, y, z)})
		show()
	}
}

func outcomes(p *prog, all bool, cap int) (set map[string]bool, n int, full bool) {
	set = map[string]bool{}
	var out string
	collect := func(r *vsched.Result) bool {
		n++
		if r.Pruned || r.Unsuited {
			out = ""
			return true
		}
		if r.Panic != "" {
			panic(r.Panic)
		}
		b := out
		for _, x := range r.Blocked {
			b += fmt.Sprintf(";%s", x.Op)
		}
		set[b] = true
		out = ""
		return true
	}
	body := p.run(&out)
	if all {
		o := vsched.Options{}
		_, ok := vsched.ExploreAll(&o, vsched.Bounds{MaxExec: cap}, body, collect)
		return set, n, ok
	}
	o := vsched.Options{All: !bruteForce}
	st := vsched.Explore(&o, vsched.Bounds{Preemptions: 1 << 20, Free: -1, Sel: -1, MaxExec: cap, Merge: !bruteForce}, body, collect)
	return set, n, !st.Capped
}

// bruteForce leaves even the merging of equal states out.
var bruteForce = os.Getenv("BRUTE") != ""

func TestAll(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("SEED"))
	count, _ := strconv.Atoi(os.Getenv("COUNT"))
	if count == 0 {
		count = 300
	}
	kinds := []string{"l0", "l0", "l1", "m0", "m1", "s0", "s1", "s0", "r0", "r1", "r0", "a0", "a1", "o0", "p0", "t0", "t1", "c0", "w0", "S0", "S1", "T0", "T1", "U0", "V0", "V1", "D0", "g0", "h0", "h0", "G0"}
	done, brute, dpor := 0, 0, 0
	for i := 0; done < count; i++ {
		rnd := rand.New(rand.NewSource(int64(seed*1000003 + i)))
		p := &prog{caps: []int{rnd.Intn(2), rnd.Intn(3)}}
		left := 4 + rnd.Intn(5)
		k := map[string]bool{}
		sub := kinds
		if rnd.Intn(2) == 0 { // few kinds, more conflicts
			sub = nil
			for len(k) < 3+rnd.Intn(4) {
				x := kinds[rnd.Intn(len(kinds))]
				if !k[x] {
					k[x] = true
					sub = append(sub, x)
				}
			}
		}
		for n := 2 + rnd.Intn(3); n > 0; n-- {
			var ops []string
			for m := 1 + rnd.Intn(3); m > 0 && left > 0; m-- {
				ops = append(ops, sub[rnd.Intn(len(sub))])
				left--
			}
			p.thr = append(p.thr, ops)
		}
		want, n1, full := outcomes(p, false, 8000)
		if !full {
			continue
		}
		got, n2, ok := outcomes(p, true, 0)
		if !ok {
			continue // polls
		}
		done++
		brute += n1
		dpor += n2
		var miss []string
		for x := range want {
			if !got[x] {
				miss = append(miss, x)
			}
		}
		for x := range got {
			if !want[x] {
				t.Errorf("program %d %v %v: outcome %q is not one", i, p.caps, p.thr, x)
			}
		}
		if len(miss) > 0 {
			sort.Strings(miss)
			t.Fatalf("program %d %v %v: %d of %d outcomes missed, %d runs instead of %d: %q", i, p.caps, p.thr, len(miss), len(want), n2, n1, miss[0])
		}
	}
	t.Logf("%d programs, %d executions by brute force, %d by reduction", done, brute, dpor)
}
