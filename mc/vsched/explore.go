package vsched

import "time"

// Bounds limits an exploration.
type Bounds struct {
	Preemptions int // switches away from a thread that could continue
	Free        int // deviations from option 0 at the other scheduling decisions (-1: unlimited)
	Sel         int // deviations at selects and harness choices (-1: unlimited)
	MaxExec     int // cap on executions (0: none)
	Deadline    time.Time
	Merge       bool // do not explore a state again that was reached by an equivalent execution
}

// Stats of an exploration.
type Stats struct {
	Executions int
	Steps      int
	Choices    int
	MaxDepth   int
	Capped     bool
	Prefix     []int
	Pruned     int // executions cut short at a state explored before
	States     int // states explored from
}

// Explore runs body for every schedule within the bounds, depth first. check is called after each
// execution; returning false stops.
func Explore(o *Options, b Bounds, body func(), check func(*Result) bool) (st Stats) {
	var prefix []int
	var seen visited
	if b.Merge {
		seen = visited{}
	}
	defer func() { st.States = len(seen) }()
	for {
		r := run(o, prefix, seen, nil, body)
		st.Executions++
		st.Steps += r.Steps
		if len(r.Choices) > st.MaxDepth {
			st.MaxDepth = len(r.Choices)
		}
		st.Choices += len(r.Choices) - len(prefix)
		if r.Pruned && r.Panic == "" && r.Livelock == "" && len(r.Races) == 0 {
			st.Pruned++
		}
		if !check(r) {
			st.Prefix = Taken(r)
			return st
		}
		next := successor(r, b, o.All)
		if next == nil {
			return st
		}
		prefix = next
		if b.MaxExec > 0 && st.Executions >= b.MaxExec || (!b.Deadline.IsZero() && st.Executions&63 == 0 && time.Now().After(b.Deadline)) {
			st.Capped = true
			return st
		}
	}
}

// Taken is the choice sequence of an execution.
func Taken(r *Result) []int {
	p := make([]int, len(r.Choices))
	for i, c := range r.Choices {
		p[i] = c.Chosen
	}
	return p
}

func successor(r *Result, b Bounds, all bool) []int {
	pre := make([]int, len(r.Choices)+1)
	free := make([]int, len(r.Choices)+1)
	sel := make([]int, len(r.Choices)+1)
	for i, c := range r.Choices {
		pre[i+1], free[i+1], sel[i+1] = pre[i], free[i], sel[i]
		if c.Chosen > 0 {
			switch {
			case c.Sel:
				sel[i+1]++
			case c.CurEn:
				pre[i+1]++
			default:
				free[i+1]++
			}
		}
	}
	for i := len(r.Choices) - 1; i >= 0; i-- {
		c := r.Choices[i]
		if c.Chosen+1 >= c.N {
			continue
		}
		p, f, s := pre[i], free[i], sel[i]
		switch {
		case c.Sel:
			s++
		case c.CurEn:
			p++
		default:
			f++
		}
		if !all && (p > b.Preemptions || (b.Free >= 0 && f > b.Free) || (b.Sel >= 0 && s > b.Sel)) {
			continue
		}
		n := make([]int, i+1)
		for j := 0; j < i; j++ {
			n[j] = r.Choices[j].Chosen
		}
		n[i] = c.Chosen + 1
		return n
	}
	return nil
}
