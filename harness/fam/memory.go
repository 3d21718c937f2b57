package fam

import (
	"fmt"
	"runtime"
	"unsafe"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regMemory() {
	reg("C25", "sets: closure under insert and remove", c25SetClosure)
	reg("C25", "sets: results of set operations", c25SetOps)
	reg("C25", "sets: ladders", c25SetLadders)
	reg("C25", "tables: closure under all operations", c25TableClosure)
	reg("C25", "tables: ladders over every length", c25TableLadders)
	reg("C25", "pairs at every length come and go", c25Pairs)
	reg("C25", "tables: removed and replaced values are let go", c25Values)
	reg("C25", "retained heap", c25Heap)
	reg("C25", "large tables", c25Large)
	reg("C25", "large sets", c25LargeSets)
}

// The allowance: some objects per entry and a constant. The present code uses
// 2n-1 nodes, and at most 3 other objects; anything proportional within a
// factor of two is accepted, garbage that adds up is not.
func allowed(n int) (objects int, bytes uintptr) { return 4*n + 8, uintptr(n+2) * 1024 }

func checkReach(c *rt.Ctx, x interface{}, n int, what func() string) {
	r := reachable(x)
	o, b := allowed(n)
	if r.objects > o || r.bytes > b {
		c.Failf("%s: holds %s for %d entries or prefixes; allowed are %d objects, %d bytes", what(), r, n, o, b)
	}
	if v := int64(r.objects); c.Notes["max_objects_for_empty_or_one"] < v && n <= 1 {
		c.Notes["max_objects_for_empty_or_one"] = v
	}
}

// ---- sets

func c25SetClosure(c *rt.Ctx) {
	offs := keyOffsets(3)
	if c.Thorough {
		offs = offsets(3)
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for part := 0; part < 16; part++ {
			part := part
			c.Case(func() {
				// one mutable goes through every state by every operation and back
				long := ip.NewSet_()
				for m := part; m < 256; m += 16 {
					for x := 1; x < 256; x++ {
						s := u.sets[m].Set_()
						s.Insert(u.sets[x])
						long.Insert(u.sets[x])
						checkReach(c, s, len(u.want[m|x]), func() string { return fmt.Sprintf("%v: %s + %s", u, str(u.want[m]), str(u.want[x])) })
						s = u.sets[m].Set_()
						s.Remove(u.sets[x])
						long.Remove(u.sets[255&^m])
						checkReach(c, s, len(u.want[m&^x]), func() string { return fmt.Sprintf("%v: %s - %s", u, str(u.want[m]), str(u.want[x])) })
						checkReach(c, s.Set(), len(u.want[m&^x]), func() string { return fmt.Sprintf("%v: %s - %s", u, str(u.want[m]), str(u.want[x])) })
						checkReach(c, long, 4, func() string { return fmt.Sprintf("%v: long history at %s, %s", u, str(u.want[m]), str(u.want[x])) })
						c.Trans += 4
					}
					c.States++
				}
				long.Remove(u.sets[255])
				checkReach(c, long, 0, func() string { return fmt.Sprintf("%v: emptied after a long history", u) })
				c.Traces++
			})
		}
	})
}

func c25SetOps(c *rt.Ctx) {
	offs := []int{0, W/2 - 1, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt2}, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 256; b++ {
					A, B := u.sets[a], u.sets[b]
					what := func(op string) func() string {
						return func() string { return fmt.Sprintf("%v: %s %s %s", u, str(u.want[a]), op, str(u.want[b])) }
					}
					checkReach(c, A.Union(B), len(u.want[a|b]), what("union"))
					checkReach(c, A.Intersection(B), len(u.want[a&b]), what("intersection"))
					checkReach(c, A.Difference(B), len(u.want[a&^b]), what("difference"))
					c.Trans += 3
				}
				c.States++
				c.Traces++
			})
		}
	})
}

// ladder makes the prefixes that leave the path to x at each length, to the
// given length.
func comb(x ref.U, to int) []ref.P {
	var out []ref.P
	for l := 0; l < to; l++ {
		out = append(out, ref.P{A: x.Xor(ref.BitAt(W, l)), Len: l + 1})
	}
	return out
}

// orders are ways to go through n things.
func orders(n int) [][]int {
	var up, down, out, in, mixed []int
	for i := 0; i < n; i++ {
		up = append(up, i)
		down = append(down, n-1-i)
	}
	for i := 0; i < n; i++ {
		j := n/2 + (i+1)/2*(1-i%2*2)
		if j >= 0 && j < n {
			out = append(out, j)
		}
	}
	seen := map[int]bool{}
	for _, i := range out {
		seen[i] = true
	}
	for i := 0; i < n; i++ {
		if !seen[i] {
			out = append(out, i)
		}
	}
	for i := range out {
		in = append(in, out[n-1-i])
	}
	for s := 0; s < 3; s++ {
		for i := s; i < n; i += 3 {
			mixed = append(mixed, i)
		}
	}
	return [][]int{up, down, out, in, mixed}
}

func c25SetLadders(c *rt.Ctx) {
	for _, pat := range []int{patAlt, patOnes, patZeros} {
		x := pattern(pat).And(ref.Max(W))
		teeth := comb(x, W)
		for ti, to := range []int{W, W / 2, 9} {
			if ti > 0 && !c.Thorough && pat != patAlt {
				continue
			}
			ks := teeth[:to]
			for oi, ord := range orders(to) {
				oi, ord := oi, ord
				c.Case(func() {
					what := func() string { return fmt.Sprintf("comb along %s to /%d, order %d", x.Str(W), to, oi) }
					// by removal of all but one or two
					step := 1
					if !c.Thorough && W == 128 {
						step = 5
					}
					for a := 0; a < to; a += step {
						for _, b := range []int{a, to - 1 - a, 0, to - 1} {
							s := ip.NewSet_()
							for _, i := range orders(to)[(oi+1)%5] {
								s.Insert(mkP(ks[i]))
							}
							n := 1
							if b != a {
								n = 2
							}
							for _, i := range ord {
								if i != a && i != b {
									s.Remove(mkP(ks[i]))
								}
							}
							checkReach(c, s, n, what)
							checkReach(c, s.Set(), n, what)
							// all at once
							all := setOf(ks)
							keep := setOf([]ref.P{ks[a], ks[b]})
							checkReach(c, all.Difference(all.Difference(keep)), n, what)
							checkReach(c, all.Intersection(keep), n, what)
							s.Remove(mkP(ks[a]))
							s.Remove(mkP(ks[b]))
							checkReach(c, s, 0, what)
							c.Trans += int64(2 * to)
						}
						c.States++
					}
					// filling up: the comb with its end is everything
					s := ip.NewSet_()
					s.Insert(mkP(ref.P{A: x, Len: to}))
					for _, i := range ord {
						s.Insert(mkP(ks[i]))
					}
					checkReach(c, s, 1, what)
					c.Traces++
				})
			}
		}
	}
	// blocks that merge
	k := 10
	if c.Thorough {
		k = 14
	}
	for _, off := range []int{0, W/2 - k/2, W - k} {
		off := off
		for oi := 0; oi < 5; oi++ {
			oi := oi
			c.Case(func() {
				n := 1 << uint(k)
				base := top(pattern(patAlt), off)
				at := func(i int) ip.Prefix {
					a := base
					for j := 0; j < k; j++ {
						if i>>uint(k-1-j)&1 == 1 {
							a = a.Or(ref.BitAt(W, off+j))
						}
					}
					return mkP(ref.P{A: a, Len: off + k})
				}
				what := func() string { return fmt.Sprintf("%d blocks of /%d, order %d", n, off+k, oi) }
				s := ip.NewSet_()
				for _, i := range orders(n)[oi] {
					s.Insert(at(i))
				}
				checkReach(c, s, 1, what)
				for i := 1; i < n; i += 2 {
					s.Remove(at(i))
				}
				checkReach(c, s, n/2, what)
				for _, i := range orders(n)[4-oi] {
					s.Remove(at(i))
				}
				checkReach(c, s, 0, what)
				c.Trans += int64(2*n + n/2)
				c.States++
				c.Traces++
			})
		}
	}
}

// ---- tables

func c25TableClosure(c *rt.Ctx) {
	offs := keyOffsets(2)
	if c.Thorough {
		offs = offsets(2)
	}
	for _, off := range offs {
		off := off
		for part := 0; part < 9; part++ {
			part := part
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, off%2 == 1)
				long := ip.NewTable_[int]()
				lcode := 0
				for m := part; m < u.n; m += 9 {
					t := u.table(m)
					r := u.tableRev(m)
					what := func() string { return u.name + ": " + u.str(m) }
					checkReach(c, t, int(u.size(m)), what)
					checkReach(c, r, int(u.size(m)), what)
					a := t.Aggregate()
					checkReach(c, a, int(a.NumEntries()), func() string { return what() + " aggregated" })
					checkReach(c, r.Map(func(ip.Prefix, int) int { return 1 }), int(u.size(m)), func() string { return what() + " mapped" })
					u.eachOp(func(op, i, v int) {
						mt := t.Table_()
						next := u.apply(c, mt, m, op, i, v, 0, what)
						lcode = u.apply(c, long, lcode, op, i, v, 0, what)
						checkReach(c, mt, int(u.size(next)), func() string { return what() + " " + u.opStr(op, i, v) })
						checkReach(c, long, int(u.size(lcode)), func() string { return what() + " after long history at " + u.str(lcode) })
						c.Trans += 2
					})
					c.States++
				}
				for i := range u.keys {
					long.Remove(u.args[i][0])
				}
				checkReach(c, long, 0, func() string { return u.name + ": emptied after a long history" })
				c.Traces++
			})
		}
	}
}

func c25TableLadders(c *rt.Ctx) {
	for _, pat := range []int{patAlt, patOnes, patZeros} {
		x := pattern(pat).And(ref.Max(W))
		path := []ref.P{}
		for l := 0; l <= W; l++ {
			path = append(path, ref.P{A: x, Len: l}.Norm(W))
		}
		teeth := comb(x, W)
		both := append(append([]ref.P{}, path...), teeth...)
		for li, ks := range [][]ref.P{path, teeth, both} {
			li, ks := li, ks
			for oi, ord := range orders(len(ks)) {
				oi, ord := oi, ord
				c.Case(func() {
					step := 1
					if !c.Thorough {
						step = len(ks) / 20
					}
					for a := 0; a < len(ks); a += step {
						for _, b := range []int{a, len(ks) - 1 - a, 0, len(ks) - 1} {
							what := func() string {
								return fmt.Sprintf("ladder %d along %s, order %d, all removed but %s and %s", li, x.Str(W), oi, ks[a].Str(W), ks[b].Str(W))
							}
							t := ip.NewTable_[int]()
							for _, i := range orders(len(ks))[(oi+1)%5] {
								t.Insert(mkP(ks[i]), i)
							}
							checkReach(c, t, len(ks), what)
							for _, i := range ord {
								if i != a && i != b {
									t.Remove(mkP(ks[i]))
								}
							}
							n := 2
							if a == b {
								n = 1
							}
							checkReach(c, t, n, what)
							checkReach(c, t.Table(), n, what)
							if t.NumEntries() != int64(n) {
								c.Failf("%s: NumEntries is %d, want %d", what(), t.NumEntries(), n)
							}
							t.Remove(mkP(ks[a]))
							t.Remove(mkP(ks[b]))
							checkReach(c, t, 0, what)
							if t.NumEntries() != 0 {
								c.Failf("%s: NumEntries is %d, want 0", what(), t.NumEntries())
							}
							c.Trans += int64(2 * len(ks))
						}
						c.States++
					}
					c.Traces++
				})
			}
		}
	}
}

// c25Pairs: two prefixes that part at bit l are put in at each of many places
// and taken out again, for every l. Whatever stays behind at one of the places
// adds up.
func c25Pairs(c *rt.Ctx) {
	for l := 0; l < W; l++ {
		l := l
		c.Case(func() {
			for where := 0; where < 2; where++ {
				// places: the first bits vary, or the ones just before l
				bits := 6
				if l < bits {
					bits = l
				}
				first := 0
				if where == 1 {
					first = l - bits
				}
				for kind := 0; kind < 4; kind++ {
					var pairs [][3]ref.P
					for i := 0; i < 1<<uint(bits); i++ {
						x := pattern(patAlt).And(ref.Max(W))
						for j := 0; j < bits; j++ {
							b := ref.BitAt(W, first+j)
							if (x.And(b) != ref.Zero) != (i>>uint(j)&1 == 1) {
								x = x.Xor(b)
							}
						}
						y := x.Xor(ref.BitAt(W, l))
						la, lb := l+1, l+1
						if kind&1 != 0 {
							la = W
						}
						if kind&2 != 0 {
							lb = W
						}
						pairs = append(pairs, [3]ref.P{{A: x, Len: la}, {A: y, Len: lb}, {A: x, Len: l}})
					}
					what := func(how string) func() string {
						return func() string {
							return fmt.Sprintf("%d pairs like %s and %s, %s", len(pairs), pairs[0][0].Str(W), pairs[0][1].Str(W), how)
						}
					}
					t, s := ip.NewTable_[int](), ip.NewSet_()
					for order := 0; order < 6; order++ {
						for _, p := range pairs {
							a, b, over := mkP(p[0]), mkP(p[1]), mkP(p[2])
							t.Insert(a, 1)
							t.GetOrInsert(b, 2)
							s.Insert(a)
							s.Insert(b)
							if order >= 2 {
								t.InsertOrUpdate(over, 3)
							}
							if order >= 4 {
								t.Remove(over)
							}
							if order%2 == 1 {
								a, b = b, a
							}
							t.Remove(a)
							s.Remove(a)
							if order == 2 || order == 3 {
								t.Remove(over)
							}
							t.Remove(b)
							s.Remove(b)
						}
						checkReach(c, t, 0, what(fmt.Sprintf("table, put in and taken out one after the other, order %d", order)))
						checkReach(c, s, 0, what(fmt.Sprintf("set, put in and taken out one after the other, order %d", order)))
						for _, p := range pairs {
							t.Insert(mkP(p[0]), 1)
							t.Insert(mkP(p[1]), 1)
							s.Insert(mkP(p[0]))
							s.Insert(mkP(p[1]))
						}
						a := t.Table().Aggregate()
						checkReach(c, a, int(a.NumEntries()), what("aggregated"))
						for _, p := range pairs {
							t.Remove(mkP(p[order%2]))
							s.Remove(mkP(p[order%2]))
						}
						for _, p := range pairs {
							t.Remove(mkP(p[1-order%2]))
							s.Remove(mkP(p[1-order%2]))
						}
						checkReach(c, t, 0, what(fmt.Sprintf("table, put in and taken out in turns, order %d", order)))
						checkReach(c, s, 0, what(fmt.Sprintf("set, put in and taken out in turns, order %d", order)))
						c.Trans += int64(20 * len(pairs))
					}
				}
			}
			c.States++
			c.Traces++
		})
	}
}

// c25Values: a table holding pointers reaches the values it has now, and none
// it had earlier.
func c25Values(c *rt.Ctx) {
	type val struct{ a, b int }
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	for _, off := range offs {
		off := off
		keys := treeKeys(off, 2, pattern(patAlt))
		n := len(keys)
		for first := 0; first < 4*n; first++ {
			first := first
			c.Case(func() {
				// all sequences of three operations from the full table, from the empty one
				// and from one with only the ends
				for start := 0; start < 3; start++ {
					for x := 0; x < 16*n*n; x++ {
						t := ip.NewTable_[*val]()
						cur := map[int]*val{}
						old := []*val{}
						for i := range keys {
							if start == 0 || start == 2 && (i == 0 || i == n-1) {
								cur[i] = &val{i, 0}
								t.Insert(mkP(keys[i]), cur[i])
							}
						}
						ops := []int{first, x % (4 * n), x / (4 * n)}
						for step, o := range ops {
							i, op := o/4, o%4
							v := &val{i, step}
							switch op {
							case 0:
								t.InsertOrUpdate(mkP(keys[i]), v)
							case 1:
								if !t.Update(mkP(keys[i]), v) {
									v = nil
								}
							case 2:
								if !t.Insert(mkP(keys[i]), v) {
									v = nil
								}
							case 3:
								t.Remove(mkP(keys[i]))
							}
							if op == 3 {
								if cur[i] != nil {
									old = append(old, cur[i])
								}
								delete(cur, i)
							} else if v != nil {
								if cur[i] != nil {
									old = append(old, cur[i])
								}
								cur[i] = v
							}
							r := reachable(t)
							for j, p := range cur {
								if !r.seen[unsafe.Pointer(p)] {
									c.Failf("start %d, operations %v: value of %s cannot be reached", start, ops[:step+1], keys[j].Str(W))
								}
							}
							for _, p := range old {
								if r.seen[unsafe.Pointer(p)] {
									c.Failf("start %d, operations %v: the value %v of %s is still held", start, ops[:step+1], *p, keys[p.a].Str(W))
								}
							}
							c.Trans++
						}
						c.States++
					}
				}
				c.Traces++
			})
		}
	}
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// c25Heap measures the process: a global cache would not be reachable from the
// value.
func c25Heap(c *rt.Ctx) {
	type big struct{ b [1000]byte }
	n := 8000
	for kind := 0; kind < 4; kind++ {
		kind := kind
		c.Case(func() {
			k := func(i int) ip.Prefix {
				return mkP(ref.P{A: ref.U{Lo: uint64(i) * 977}.And(ref.Max(W)), Len: W - i%2})
			}
			run := func() (keep interface{}) {
				switch kind {
				case 0: // removed values
					t := ip.NewTable_[*big]()
					for i := 0; i < n; i++ {
						t.Insert(k(i), &big{})
					}
					for i := 1; i < n; i++ {
						t.Remove(k(i))
					}
					return t
				case 1: // replaced values
					t := ip.NewTable_[*big]()
					for i := 0; i < n; i++ {
						t.InsertOrUpdate(k(3), &big{})
						t.Update(k(3), &big{})
					}
					return t
				case 2: // abandoned snapshots
					t := ip.NewTable_[*big]()
					var last ip.Table[*big]
					for i := 0; i < n; i++ {
						t.Insert(k(i), &big{})
						last = t.Table()
						last.Diff(ip.Table[*big]{}, nil, nil, nil, nil)
						last.LongestMatch(k(i))
						if i%1000 == 7 {
							last.Aggregate()
							last.Map(nil)
						}
						t.Remove(k(i))
					}
					return t
				default: // sets
					s := ip.NewSet_()
					for r := 0; r < 8; r++ {
						for i := 0; i < n; i++ {
							s.Insert(k(i))
						}
						for i := 0; i < n; i++ {
							s.Remove(k(i))
						}
					}
					return s
				}
			}
			run() // once for whatever is only done once
			before := liveHeap()
			keep := run()
			after := liveHeap()
			runtime.KeepAlive(keep)
			// 8000 to 16000 values of 1 kB are gone, or 64000 prefixes
			if after-before > 2<<20 {
				c.Failf("history %d: the process keeps %d bytes for removed content", kind, after-before)
			}
			c.Note("max_bytes_kept", after-before)
			c.States++
			c.Trans += int64(2 * n)
			c.Traces++
		})
	}
}

// c25Large: counts and memory of tables with more than 2^16 entries.
func c25Large(c *rt.Ctx) {
	sizes := []int{1 << 16, 1<<16 + 1, 140000}
	if c.Thorough {
		sizes = append(sizes, 1<<17+1, 400000, 1<<20+3)
	}
	for _, n := range sizes {
		n := n
		for shape := 0; shape < 3; shape++ {
			shape := shape
			c.Case(func() {
				k := func(i int) ip.Prefix {
					switch shape {
					case 0: // a dense block: every joining node is missing
						return mkP(ref.P{A: ref.U{Lo: uint64(i)}, Len: W})
					case 1: // nested: heap numbering of the binary tree
						l := 0
						for x := i + 1; x > 1; x >>= 1 {
							l++
						}
						a := ref.Zero
						for j := 0; j < l; j++ {
							if (i+1)>>uint(l-1-j)&1 == 1 {
								a = a.Or(ref.BitAt(W, j))
							}
						}
						return mkP(ref.P{A: a, Len: l})
					default: // spread out
						return mkP(ref.P{A: ref.U{Hi: uint64(i) * 0x9e3779b97f4a7c15, Lo: uint64(i) * 2654435761}.And(ref.Max(W)), Len: W})
					}
				}
				what := func() string { return fmt.Sprintf("%d entries, shape %d", n, shape) }
				t := ip.NewTable_[int]()
				check := func(want int) {
					if got := t.NumEntries(); got != int64(want) {
						c.Failf("%s: NumEntries is %d, want %d", what(), got, want)
					}
					if got := t.Table().NumEntries(); got != int64(want) {
						c.Failf("%s: NumEntries of the snapshot is %d, want %d", what(), got, want)
					}
				}
				for i := 0; i < n; i++ {
					if !t.Insert(k(i), i&15) {
						c.Failf("%s: Insert number %d failed", what(), i)
					}
					if i&1023 == 0 || i > 65530 && i < 65540 {
						check(i + 1)
					}
				}
				check(n)
				checkReach(c, t, n, what)
				walked := 0
				t.Table().Walk(func(ip.Prefix, int) bool { walked++; return true })
				if walked != n {
					c.Failf("%s: the walk visits %d", what(), walked)
				}
				for i := 0; i < n; i++ {
					if v, ok := t.Get(k(i)); !ok || v != i&15 {
						c.Failf("%s: Get of number %d is %d, %v", what(), i, v, ok)
					}
					if v, ok, p := t.LongestMatch(k(i)); !ok || v != i&15 || p != k(i) {
						c.Failf("%s: LongestMatch of number %d is %d, %v, %v", what(), i, v, ok, p)
					}
				}
				same := t.Table().Map(nil)
				if same.NumEntries() != int64(n) {
					c.Failf("%s: the mapped table has %d entries", what(), same.NumEntries())
				}
				for i := 0; i < n; i++ {
					j := i ^ 1
					if j >= n {
						j = i
					}
					if !t.Remove(k(j)) {
						c.Failf("%s: Remove number %d failed", what(), j)
					}
					if i&1023 == 0 || n-i < 3 {
						check(n - 1 - i)
					}
				}
				checkReach(c, t, 0, what)
				c.States++
				c.Trans += int64(4 * n)
				c.Traces++
			})
		}
	}
}

func c25LargeSets(c *rt.Ctx) {
	n := 1 << 17
	if c.Thorough {
		n = 1 << 20
	}
	for shape := 0; shape < 2; shape++ {
		shape := shape
		c.Case(func() {
			k := func(i int) ip.Prefix {
				if shape == 0 {
					return mkP(ref.P{A: ref.U{Lo: uint64(i)}, Len: W})
				}
				a := ref.Zero
				for j := 0; j < 20; j++ {
					if i>>uint(19-j)&1 == 1 {
						a = a.Or(ref.BitAt(W, j))
					}
				}
				return mkP(ref.P{A: a, Len: 20})
			}
			what := func() string { return fmt.Sprintf("%d blocks, shape %d", n, shape) }
			s := ip.NewSet_()
			for i := 0; i < n; i += 2 {
				s.Insert(k(i))
			}
			checkReach(c, s, n/2, what)
			if got := len(walkSet(s.Set())); got != n/2 {
				c.Failf("%s: %d prefixes, want %d", what(), got, n/2)
			}
			for i := 1; i < n; i += 2 {
				s.Insert(k(i))
			}
			checkReach(c, s, 1, what)
			if got := len(walkSet(s.Set())); got != 1 {
				c.Failf("%s: %d prefixes, want 1", what(), got)
			}
			for i := 0; i < n; i += 2 {
				s.Remove(k(i))
			}
			checkReach(c, s, n/2, what)
			for i := 1; i < n; i += 2 {
				s.Remove(k(i))
			}
			checkReach(c, s, 0, what)
			c.States++
			c.Trans += int64(2 * n)
			c.Traces++
		})
	}
}
