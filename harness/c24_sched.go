//go:build mcsched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/substrait-io/substrait-go/v8/mcpoint"
)

// c24wait is how long a user may take before it counts as waiting for a lock
// that a preempted user holds; then everybody runs on, so a slow user only
// makes the schedule another one.
const c24wait = 60 * time.Millisecond

// c24exec runs a under the scheduler of the instrumented build: the first user
// runs until its stop-th scheduling point, then the second until its own, then
// the rest of the first and the rest of the second. A stop of 0 is the end.
func c24exec(users [2]func() string, stop [2]int) (res [2]string, points [2]int, blocked bool) {
	var cur atomic.Int32
	var free atomic.Bool
	var resume [2]chan bool
	var done [2]chan bool
	paused := make(chan bool, 2)
	for i := range users {
		resume[i], done[i] = make(chan bool, 1), make(chan bool, 1)
	}
	mcpoint.H = func(int) {
		if free.Load() {
			return
		}
		u := int(cur.Load())
		points[u]++
		if points[u] == stop[u] {
			paused <- true
			<-resume[u]
		}
	}
	start := func(u int) {
		cur.Store(int32(u))
		go func() {
			if p := catch(func() { res[u] = users[u]() }); p != "" {
				res[u] = p
			}
			done[u] <- true
		}()
	}
	ended := [2]bool{}
	wait := func(u int) (stopped bool) { // until u stops or ends
		timer := time.NewTimer(c24wait)
		defer timer.Stop()
		select {
		case <-paused:
			return true
		case <-done[u]:
			ended[u] = true
			return true
		case <-timer.C:
			free.Store(true)
			blocked = true
			for i := range resume {
				select {
				case resume[i] <- true:
				default:
				}
			}
			return false
		}
	}
	finish := func() {
		for u := range users {
			if !ended[u] {
				<-done[u]
				ended[u] = true
			}
		}
	}
	start(0)
	ok := wait(0)
	start(1)
	ok = ok && wait(1)
	for u := range users {
		if ok && !ended[u] {
			cur.Store(int32(u))
			resume[u] <- true
			ok = wait(u)
		}
	}
	finish()
	mcpoint.H = nil
	return
}

func init() {
	if len(os.Args) != 5 || os.Args[1] != "-c24sched" {
		return
	}
	stdout := os.Stdout // the library prints there on parse errors
	os.Stdout, _ = os.Open(os.DevNull)
	me, _ := strconv.Atoi(os.Args[2])
	mode, chunk := 0, 0
	fmt.Sscanf(os.Args[3], "%d/%d", &mode, &chunk)
	thorough := os.Args[4] == "thorough"
	ops := c24ops()
	alone := c24alone(false, ops)
	var out c24schedOut
	fail := func(format string, a ...any) {
		if len(out.Failures) < 5 {
			out.Failures = append(out.Failures, fmt.Sprintf(format, a...))
		}
	}
	// the visits of places at which the first user is preempted
	limit := 2
	if mode == 2 {
		limit = 1 << 30
	}
	if mode == 3 {
		limit = 1
	}
	var stops, entries []int
	for round := 0; round < 2; round++ { // the second run has warm parser caches
		stops, entries = nil, nil
		n := 0
		seen := map[int]int{}
		e := c24new(false)
		mcpoint.H = func(id int) {
			n++
			if seen[id]++; seen[id] <= limit {
				stops = append(stops, n)
				if mcpoint.Entry[id] {
					entries = append(entries, n)
				}
			}
		}
		ops[me].run(e)
		mcpoint.H = nil
	}
	if mode == 3 && len(stops) > 150 {
		stops = entries
	}
	script := []int{me}
	for k := range ops {
		if k != me {
			script = append(script, k)
		}
	}
	if mode == 1 {
		for i, j := 0, len(script)-1; i < j; i, j = i+1, j-1 {
			script[i], script[j] = script[j], script[i]
		}
	}
	if mode == 3 {
		script = script[:1]
	}
	try := func(i, j int) {
		e := c24new(false)
		bad := -1
		var got string
		res, _, blocked := c24exec([2]func() string{
			func() string { return ops[me].run(e) },
			func() string {
				for _, k := range script {
					if r := ops[k].run(e); r != alone[k] && bad < 0 {
						bad, got = k, r
					}
				}
				return ""
			}}, [2]int{i, j})
		out.Schedules++
		if blocked {
			out.Blocked++
		}
		if res[0] != alone[me] {
			fail("%s preempted at point %d by %s gives\n  %s\nalone\n  %s", ops[me].name, i, c24names(ops, script), c24diff(res[0], alone[me]), c24diff(alone[me], res[0]))
		}
		if res[1] != "" {
			fail("users while %s is at point %d: %s", ops[me].name, i, res[1])
		}
		if bad >= 0 {
			fail("%s while %s is at point %d gives\n  %s\nalone\n  %s", ops[bad].name, ops[me].name, i, c24diff(got, alone[bad]), c24diff(alone[bad], got))
		}
		if thorough && mode != 3 || out.Schedules%8 == 0 {
			for k, o := range ops {
				if r := o.run(e); r != alone[k] {
					fail("after %s was preempted at point %d by %s, %s gives\n  %s\nalone\n  %s", ops[me].name, i, c24names(ops, script), o.name, c24diff(r, alone[k]), c24diff(alone[k], r))
					break
				}
			}
		}
	}
	out.Points = int64(len(stops))
	if mode > 1 {
		out.Points = (out.Points + c24chunks - 1 - int64(chunk)) / c24chunks
	}
	for k, i := range stops {
		if mode > 1 && k%c24chunks != chunk {
			continue
		}
		if mode == 3 {
			for _, j := range stops {
				try(i, j)
			}
		} else {
			try(i, 0)
		}
	}
	json.NewEncoder(stdout).Encode(out)
	os.Exit(0)
}
