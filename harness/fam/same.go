package fam

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// What is asked of objects of the same contents that came to be in different ways
// gets the same answers, those left open by the other properties too, and at any
// time, and in any run of the program.

func regSame() {
	reg("C33", "sets made in different ways", sameSets)
	reg("C33", "tables made in different ways", sameTables)
	reg("C33", "large and deep tables", sameLargeTables)
	reg("C33", "large and deep sets", sameLargeSets)
	reg("C33", "another run of the program", sameRun)
}

// setHistories are ways to make the set of blocks m.
func (u *uni) setHistories() []maker[ip.Set] {
	n := len(u.atoms)
	all := 1<<uint(n) - 1
	in := func(m, i int) bool { return m>>uint(i)&1 == 1 }
	return []maker[ip.Set]{
		{"its prefixes", func(m int) ip.Set { return setOf(u.want[m]) }},
		{"its blocks from the last one", func(m int) ip.Set {
			s := ip.NewSet_()
			for i := n - 1; i >= 0; i-- {
				if in(m, i) {
					s.Insert(mkP(u.atoms[i]))
				}
			}
			return s.Set()
		}},
		{"everything less the other blocks", func(m int) ip.Set {
			s := u.sets[all].Set_()
			for i := 0; i < n; i++ {
				if !in(m, i*5%n) {
					s.Remove(mkP(u.atoms[i*5%n]))
				}
			}
			return s.Set()
		}},
		{"a union of odd and even blocks", func(m int) ip.Set { return u.sets[m&0x5555].Union(u.sets[m&0xaaaa]) }},
		{"an intersection", func(m int) ip.Set { return u.sets[m|all&0x3333].Intersection(u.sets[m|all&0xcccc]) }},
		{"a difference", func(m int) ip.Set { return u.sets[m|all&0x5a5a].Difference(u.sets[all&0x5a5a&^m]) }},
		{"ranges, put in and taken out and put in", func(m int) ip.Set {
			return (ip.Set{}).Build(func(s sw) bool {
				for round := 0; round < 3; round++ {
					for _, iv := range u.ref[m] {
						if round == 1 {
							s.Remove(mkR(iv))
						} else {
							s.Insert(mkR(iv))
						}
					}
				}
				return true
			})
		}},
		{"all space less what it is not", func(m int) ip.Set {
			everything := mkP(ref.P{}).Set()
			return everything.Difference(everything.Difference(u.sets[m]))
		}},
		{"a set that was asked much", func(m int) ip.Set {
			s := setOf(u.want[m]).Set_()
			x := s.Set()
			for i := 0; i < n; i++ {
				x.FindAvailablePrefix(u.sets[1<<uint(i)], uint32(u.off+u.k))
				x.Union(u.sets[all])
				s.Contains(mkP(u.atoms[i]))
			}
			return s.Set()
		}},
	}
}

type answer struct{ q, a string }

// answers of a set, with others made in some way
func (u *uni) setAnswers(s ip.Set, some []int, other func(m int) ip.Set) []answer {
	var out []answer
	add := func(q string, a ...interface{}) { out = append(out, answer{q, fmt.Sprint(a...)}) }
	add("String", s.String(), s.IsEmpty())
	var b strings.Builder
	for stop := 1; stop <= 4; stop++ {
		n := 0
		fmt.Fprint(&b, s.WalkPrefixes(func(p ip.Prefix) bool { fmt.Fprint(&b, p, " "); n++; return n != stop }))
		n = 0
		fmt.Fprint(&b, s.WalkRanges(func(r ip.Range) bool { fmt.Fprint(&b, r, " "); n++; return n != stop }))
	}
	add("walks", b.String())
	for l := u.off; l <= u.off+u.k+1 && l <= W; l++ {
		n, err := s.NumPrefixes(uint32(l))
		add("NumPrefixes", n, err != nil)
	}
	var lens []uint32
	for l := u.off; l <= u.off+u.k+2 && l <= W; l++ {
		lens = append(lens, uint32(l))
	}
	if u.off+u.k+2 < W {
		lens = append(lens, W)
	}
	for _, m := range some {
		o := other(m)
		for _, l := range lens {
			p, err := s.FindAvailablePrefix(o, l)
			add(fmt.Sprintf("FindAvailablePrefix(%s, %d)", str(u.want[m]), l), p, err != nil)
		}
		add("algebra with "+str(u.want[m]), s.Union(o), o.Union(s), s.Intersection(o), o.Intersection(s), s.Difference(o), o.Difference(s),
			s.Contains(o), o.Contains(s), s.Equal(o), o.Equal(s))
	}
	// what is found one after the other, each then reserved
	for _, l := range lens[1:] {
		taken := ip.NewSet_()
		var got []string
		for i := 0; i < 12; i++ {
			p, err := s.FindAvailablePrefix(taken, l)
			if err != nil {
				break
			}
			got = append(got, p.String())
			taken.Insert(p)
		}
		add(fmt.Sprintf("prefixes of length %d found one after the other", l), got)
	}
	return out
}

func sameAnswers(c *rt.Ctx, what func() string, got, want []answer) {
	c.Trans += int64(len(got))
	for i := range want {
		if i < len(got) && got[i] == want[i] {
			continue
		}
		if i >= len(got) {
			c.Failf("%s: %d answers, want %d", what(), len(got), len(want))
		}
		c.Failf("%s: %s gives %s, otherwise %s", what(), got[i].q, got[i].a, want[i].a)
	}
}

func sameSets(c *rt.Ctx) {
	offs := []int{0, W/2 - 1, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt, patZeros}, offs, func(u *uni) {
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		c.Guard(u.prepare)
		hs := u.setHistories()
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < 256; m += parts {
					some := []int{}
					for k := 0; k < 256; k += 7 {
						some = append(some, (k+m*3)&255)
					}
					some = append(some, m, m^255)
					var first []answer
					for h, mk := range hs {
						oh := hs[(h+m)%len(hs)]
						what := func() string {
							return fmt.Sprintf("%v: %s made as %s, the others as %s", u, str(u.want[m]), mk.name, oh.name)
						}
						s := mk.make(m)
						got := u.setAnswers(s, some, oh.make)
						if h == 0 {
							first = got
							got = u.setAnswers(s, some, oh.make)
						}
						sameAnswers(c, what, got, first)
						if !s.Equal(u.sets[m]) {
							c.Failf("%s: not equal to the same set", what())
						}
					}
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprint(u) + ": all sets, made in nine ways" })
	})
}

func (u *tuni) tableHistories() []maker[ip.Table[int]] {
	type T = ip.Table[int]
	n := len(u.keys)
	each := func(s int, f func(i, v int)) {
		for i := 0; i < n; i++ {
			if d := u.digit(s, i); d != 0 {
				f(i, d)
			}
		}
	}
	return []maker[T]{
		{"its entries in order", u.table},
		{"its entries from the last one", func(s int) T {
			t := ip.NewTable_[int]()
			for i := n - 1; i >= 0; i-- {
				if d := u.digit(s, i); d != 0 {
					t.GetOrInsert(u.stored[i], d)
				}
			}
			return t.Table()
		}},
		{"other values, then its own", func(s int) T {
			t := ip.NewTable_[int]()
			each(s, func(i, v int) { t.Insert(u.stored[i], 3-v) })
			each(s, func(i, v int) { t.Update(u.stored[i], v) })
			return t.Table()
		}},
		{"all prefixes, then without the others", func(s int) T {
			t := ip.NewTable_[int]()
			for i := 0; i < n; i++ {
				d := u.digit(s, i*2%n)
				if d == 0 {
					d = 1
				}
				t.InsertOrUpdate(u.stored[i*2%n], d)
			}
			for i := 0; i < n; i++ {
				if u.digit(s, i) == 0 {
					t.Remove(u.stored[i])
				}
			}
			return t.Table()
		}},
		{"in and out and in", func(s int) T {
			return (T{}).Build(func(t tw) bool {
				for round := 0; round < 3; round++ {
					each(s, func(i, v int) {
						if round == 1 {
							t.Remove(u.stored[i])
						} else {
							t.Insert(u.stored[i], v)
						}
					})
				}
				return true
			})
		}},
		{"a map", func(s int) T {
			t := ip.NewTable_[int]()
			each(s, func(i, v int) { t.Insert(u.stored[i], 3-v) })
			return t.Table().Map(func(_ ip.Prefix, v int) int { return 3 - v })
		}},
		{"a custom comparison", func(s int) T {
			t := ip.NewTableCustomCompare_(func(a, b int) bool { return a == b })
			each(s, func(i, v int) { t.InsertOrUpdate(u.stored[i], v); t.InsertOrUpdate(u.stored[i], v) })
			return t.Table()
		}},
		{"a table that was asked much", func(s int) T {
			t := u.table(s).Table_()
			for i := 0; i < n; i++ {
				t.LongestMatch(u.args[i][0])
				t.Table().Aggregate()
				t.Insert(u.stored[i], 1)
				if u.digit(s, i) == 0 {
					t.Remove(u.stored[i])
				}
			}
			return t.Table()
		}},
	}
}

func rawWalk(t ip.Table[int], stop int) string {
	var b strings.Builder
	n := 0
	fmt.Fprint(&b, t.Walk(func(p ip.Prefix, v int) bool { fmt.Fprint(&b, p, "=", v, " "); n++; return n != stop }))
	return b.String()
}

func rawDiff(l, r ip.Table[int], stop int) string {
	var b strings.Builder
	n := 0
	one := func(kind string) func(ip.Prefix, int) bool {
		return func(p ip.Prefix, v int) bool { fmt.Fprint(&b, kind, p, "=", v, " "); n++; return n != stop }
	}
	fmt.Fprint(&b, l.Diff(r, func(p ip.Prefix, v, w int) bool {
		fmt.Fprint(&b, "!", p, "=", v, ",", w, " ")
		n++
		return n != stop
	}, one("-"), one("+"), one("=")))
	return b.String()
}

func (u *tuni) tableAnswers(t ip.Table[int], some []int, other func(m int) ip.Table[int]) []answer {
	var out []answer
	add := func(q string, a ...interface{}) { out = append(out, answer{q, fmt.Sprint(a...)}) }
	add("Walk", rawWalk(t, -1), rawWalk(t, 2), t.NumEntries())
	a := t.Aggregate()
	add("Aggregate", rawWalk(a, -1), a.NumEntries(), rawWalk(a.Aggregate(), -1))
	add("Map", rawWalk(t.Map(func(_ ip.Prefix, v int) int { return v / 2 }), -1))
	for i := range u.keys {
		v, ok := t.Get(u.args[i][0])
		v2, ok2, p := t.LongestMatch(u.args[i][2])
		v3, ok3, p3 := a.LongestMatch(u.args[i][1])
		add("lookups of "+u.keys[i].Str(W), v, ok, v2, ok2, p, v3, ok3, p3)
	}
	for _, m := range some {
		o := other(m)
		for stop := 0; stop < 3; stop++ {
			add("Diff with "+u.str(m), rawDiff(t, o, stop), rawDiff(o, t, stop))
		}
		add("Diff of aggregates", rawDiff(a, o.Aggregate(), -1))
	}
	x := t.Table_()
	for i := range u.keys {
		k := u.stored[i]
		add("modifications", x.Insert(k, 1), x.GetOrInsert(k, 2), x.Update(u.args[(i+1)%len(u.keys)][0], 2), x.Remove(u.args[(i+2)%len(u.keys)][1]), rawWalk(x.Table(), -1), rawWalk(x.Table().Aggregate(), -1))
	}
	return out
}

func sameTables(c *rt.Ctx) {
	for depth := 1; depth <= 2; depth++ {
		offs := []int{0, W/2 - 1, W - depth}
		if c.Thorough {
			offs = keyOffsets(depth)
		}
		for _, off := range offs {
			u := newTuni(fmt.Sprintf("tree of depth %d at %d", depth, off), treeKeys(off, depth, pattern(patAlt)), 2, off == W/2-1)
			hs := u.tableHistories()
			const parts = 27
			for part := 0; part < parts; part++ {
				part := part
				c.Case(func() {
					for m := part; m < u.n; m += parts {
						some := []int{m, (m*7 + 5) % u.n, (m + 1) % u.n, u.n - 1 - m}
						var first []answer
						for h, mk := range hs {
							oh := hs[(h+m)%len(hs)]
							what := func() string {
								return fmt.Sprintf("%s: %s made as %s, the others as %s", u.name, u.str(m), mk.name, oh.name)
							}
							t := mk.make(m)
							got := u.tableAnswers(t, some, oh.make)
							if h == 0 {
								first = got
								got = u.tableAnswers(t, some, oh.make)
							}
							sameAnswers(c, what, got, first)
						}
						c.States++
					}
					c.Traces++
				})
			}
			c.Sample(func() string { return u.name + ": tables, made in eight ways" })
		}
	}
}

func sameLargeTables(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		c.Case(func() {
			n := len(b.keys)
			u := &tuni{name: b.name, keys: b.keys}
			ask := func(t, o ip.Table[int]) []answer {
				var out []answer
				add := func(q string, a ...interface{}) { out = append(out, answer{q, fmt.Sprint(a...)}) }
				add("Walk", rawWalk(t, -1), t.NumEntries())
				add("Aggregate", rawWalk(t.Aggregate(), -1))
				add("Diff", rawDiff(t, o, -1), rawDiff(o, t, -1))
				add("Map", rawWalk(t.Map(func(_ ip.Prefix, v int) int { return v / 2 }), -1))
				for _, k := range u.keys {
					v, ok, p := t.LongestMatch(mkA(k.Last(W)))
					add("LongestMatch", v, ok, p)
				}
				return out
			}
			var first []answer
			for _, o := range orders(n) {
				for way := 0; way < 2; way++ {
					t, p := ip.NewTable_[int](), ip.NewTable_[int]()
					for _, i := range o {
						if i%5 > 0 || way == 1 {
							t.Insert(mkP(b.keys[i]), 1+i%2)
						}
						if i%3 > 0 {
							p.InsertOrUpdate(mkP(b.keys[i]), i%3)
						}
					}
					for i := 0; i < n; i += 5 {
						t.Remove(mkP(b.keys[i]))
					}
					got := ask(t.Table(), p.Table())
					if first == nil {
						first = got
					}
					sameAnswers(c, func() string { return b.name + " made in another order" }, got, first)
				}
			}
			c.States++
			c.Traces++
		})
	}
}

func sameLargeSets(c *rt.Ctx) {
	for _, b := range bigSets(c.Thorough) {
		b := b
		c.Case(func() {
			n := len(b.pieces)
			ask := func(s, o ip.Set) []answer {
				var out []answer
				add := func(q string, a ...interface{}) { out = append(out, answer{q, fmt.Sprint(a...)}) }
				add("String", s.String())
				for l := 0; l <= W; l += 1 + W/32 {
					p, err := s.FindAvailablePrefix(o, uint32(l))
					add(fmt.Sprintf("FindAvailablePrefix of length %d", l), p, err != nil)
					p, err = s.FindAvailablePrefix(nil, uint32(l))
					add(fmt.Sprintf("FindAvailablePrefix of length %d without reserved", l), p, err != nil)
				}
				add("algebra", s.Union(o), s.Intersection(o), s.Difference(o), o.Difference(s))
				return out
			}
			everything := mkP(ref.P{}).Set()
			var first []answer
			for _, ord := range orders(n) {
				s, o := ip.NewSet_(), everything.Set_()
				for _, i := range ord {
					s.Insert(mkP(b.pieces[i]))
					if i%3 == 0 {
						o.Remove(mkP(b.pieces[i]))
					}
				}
				for _, x := range []ip.Set{s.Set(), everything.Difference(everything.Difference(s))} {
					got := ask(x, o.Set())
					if first == nil {
						first = got
					}
					sameAnswers(c, func() string { return b.name + " made in another way" }, got, first)
				}
			}
			c.States++
			c.Traces++
		})
	}
}

// Digest asks many objects and returns lines, each for some of them with a hash of the answers.
func Digest() []string {
	var out []string
	line := func(name string, as []answer) {
		h := fnv.New64a()
		for _, a := range as {
			h.Write([]byte(a.q))
			h.Write([]byte(a.a))
		}
		out = append(out, fmt.Sprintf("%s %016x", name, h.Sum64()))
	}
	for _, off := range []int{0, W/2 - 1, W - 3} {
		u := newUni(off, 3, pattern(patAlt))
		u.prepare()
		hs := u.setHistories()
		for m := 0; m < 256; m++ {
			line(fmt.Sprintf("%v: %s", u, str(u.want[m])), u.setAnswers(hs[m%len(hs)].make(m), []int{m ^ 255, m * 7 & 255, m*11&255 ^ 90}, hs[m*5%len(hs)].make))
		}
	}
	for _, off := range []int{0, W/2 - 1, W - 2} {
		u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, true)
		hs := u.tableHistories()
		for m := 0; m < u.n; m += 7 {
			line(u.name+": "+u.str(m), u.tableAnswers(hs[m%len(hs)].make(m), []int{(m*7 + 5) % u.n}, hs[m*5%len(hs)].make))
		}
	}
	return out
}

// DigestEnv tells the program to print the digest only.
const DigestEnv = "VH_DIGEST"

func sameRun(c *rt.Ctx) {
	for run := 0; run < 2; run++ {
		c.Case(func() {
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d", DigestEnv, W))
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			if err != nil {
				panic(fmt.Sprintf("cannot run the program again: %v", err))
			}
			theirs := strings.Split(strings.TrimSpace(string(b)), "\n")
			mine := Digest()
			for i, l := range mine {
				if i >= len(theirs) || theirs[i] != l {
					c.Failf("%s: another run of the program gives other answers", l)
				}
			}
			c.States += int64(len(mine))
			c.Trans += int64(len(mine))
			c.Traces++
		})
	}
	c.Sample(func() string { return "the answers of two runs of the program" })
}
