// Package par explores uses of unrelated values at the same time.
package par

import (
	"fmt"

	"gopkg.in/addrs.v1/zzverif/rt"
	"gopkg.in/addrs.v1/zzverif/sched"
)

// Use is something done with values of its own: F is called with the number of
// the values to use.
type Use struct {
	Name string
	F    func(d int) string
}

// Pairs explores (up to the given numbers of preemptions, the second for a use with
// itself) each two of the uses in two threads. Each thread uses its own
// values, the other ones' and its own again; a use alone afterwards finds out
// about damage that stays. All must be as when they are alone.
func Pairs(c *rt.Ctx, bound, self int, uses []Use) {
	// in the end, too, lest something is done here for the first time
	alone := func(u Use, d int) (r string) {
		defer func() {
			if x := recover(); x != nil {
				if sched.IsAbort(x) {
					panic(x)
				}
				r = fmt.Sprintf("panic: %v", x)
			}
		}()
		return u.F(d)
	}
	for i := range uses {
		for j := i; j < len(uses); j++ {
			i, j := i, j
			two := [2]Use{uses[i], uses[j]}
			c.Case(func() {
				type seen struct {
					thread, step, d int
					got             string
				}
				saw := map[seen][]int{}
				var order []seen
				var got [2][3]string
				uses := [2][3]int{{0, 1, 0}, {1, 0, 1}}
				races, points := sched.Races(), sched.Points()
				fail := func(why string, schedule []int) {
					c.Failf("%s and %s at the same time with values of their own: %s (schedule %v)", two[0].Name, two[1].Name, why, schedule)
				}
				b := bound
				if i == j {
					b = self
				}
				st := sched.Explore(b, func() []func() {
					var fs []func()
					for k := range two {
						k := k
						got[k] = [3]string{}
						fs = append(fs, func() {
							for n, d := range uses[k] {
								got[k][n] = alone(two[k], d)
							}
						})
					}
					return fs
				}, func(problem string) bool {
					if problem != "" {
						fail(problem, sched.Schedule())
					}
					if sched.Races() != races {
						races = sched.Races()
						fail("data race (the race detector's report is in the log)", sched.Schedule())
					}
					note := func(s seen) {
						if _, ok := saw[s]; !ok {
							saw[s] = sched.Schedule()
							order = append(order, s)
						}
					}
					for k := range two {
						for n, d := range uses[k] {
							note(seen{k, n, d, got[k][n]})
						}
						for d := 0; d < 2; d++ {
							note(seen{k, 3, d, alone(two[k], d)})
						}
					}
					c.Traces++
					return true
				})
				if st.Truncated {
					c.Cap("a schedule had more choices than can be recorded")
				}
				var want [2][2]string
				for k := range two {
					for d := range want[k] {
						alone(two[k], 2)
						want[k][d] = alone(two[k], d)
					}
				}
				for _, s := range order {
					if s.got != want[s.thread][s.d] {
						fail(fmt.Sprintf("%s, call %d, gives %s, alone %s", two[s.thread].Name, s.step+1, s.got, want[s.thread][s.d]), saw[s])
					}
				}
				c.States += int64(len(order))
				c.Trans += sched.Points() - points
			})
		}
	}
}
