// Package hip checks the family-neutral package against the family packages.
package hip

import (
	"fmt"
	"net"
	"strings"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func Tasks(prop string) []rt.Task {
	if prop == "C19" {
		return []rt.Task{{Name: "ip///at the same time: values", Run: valuesTogether}}
	}
	if prop != "C24" {
		return nil
	}
	return []rt.Task{
		{Name: "ip/// short texts", Run: texts},
		{Name: "ip/// texts one edit from valid ones", Run: edits},
		{Name: "ip/// net.IP", Run: netIPs},
		{Name: "ip/// net.IPMask", Run: netMasks},
		{Name: "ip/// net.IPNet", Run: netNets},
		{Name: "ip/// typed values of every family in every position", Run: typed},
	}
}

type out struct {
	v   interface{}
	err bool
}

func mk(v interface{}, err error) out {
	if err != nil {
		return out{nil, true}
	}
	return out{v, false}
}

func (o out) String() string {
	if o.err {
		return "an error"
	}
	return fmt.Sprintf("%T %v", o.v, o.v)
}

func same(c *rt.Ctx, what func() string, got out, wants ...out) {
	c.Trans++
	for _, w := range wants {
		if got == w {
			return
		}
	}
	s := make([]string, len(wants))
	for i, w := range wants {
		s[i] = w.String()
	}
	c.Failf("%s gives %s, want %s", what(), got, strings.Join(s, " or "))
}

// checkText: text with a colon is IPv6, also if it is IPv4-mapped, other text
// IPv4.
func checkText(c *rt.Ctx, s string) {
	a4, e4 := ipv4.AddressFromString(s)
	a6, e6 := ipv6.AddressFromString(s)
	want := []out{mk(a4, e4)}
	if strings.Contains(s, ":") {
		want = []out{mk(a6, e6)}
	}
	got, err := ip.AddressFromString(s)
	same(c, func() string { return fmt.Sprintf("AddressFromString(%q)", s) }, mk(got, err), want...)

	p4, f4 := ipv4.PrefixFromString(s)
	p6, f6 := ipv6.PrefixFromString(s)
	want = []out{mk(p4, f4)}
	if strings.Contains(s, ":") {
		want = []out{mk(p6, f6)}
	}
	pre, err := ip.PrefixFromString(s)
	same(c, func() string { return fmt.Sprintf("PrefixFromString(%q)", s) }, mk(pre, err), want...)
	if e4 == nil || e6 == nil || f4 == nil || f6 == nil {
		c.Note("texts that denote a value", 1)
	}
}

func texts(c *rt.Ctx) {
	alpha := "1:/.0af2 "
	max := 5
	if c.Thorough {
		max = 7
	}
	n := len(alpha)
	var rec func(s []byte)
	rec = func(s []byte) {
		checkText(c, string(s))
		c.States++
		if len(s) == max {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(s[:len(s):len(s)], alpha[i]))
		}
	}
	c.Case(func() { checkText(c, ""); c.Traces++ })
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			i, j := i, j
			c.Case(func() {
				checkText(c, alpha[i:i+1])
				rec([]byte{alpha[i], alpha[j]})
				c.Traces++
			})
		}
	}
	c.Sample(func() string { return fmt.Sprintf("all texts of up to %d of the characters %q", max, alpha) })
}

func edits(c *rt.Ctx) {
	var base []string
	for _, a := range []string{"0.0.0.0", "255.255.255.255", "203.0.113.17", "::", "::1", "2001:db8::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff",
		"1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "64:ff9b::192.0.2.33", "fe80::1%eth0", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8"} {
		base = append(base, a)
		for _, l := range []string{"0", "1", "8", "31", "32", "33", "64", "127", "128", "129", "-1", "08", ""} {
			base = append(base, a+"/"+l)
		}
	}
	alpha := "0159afFgx:./% -+"
	for _, b := range base {
		b := b
		c.Case(func() {
			checkText(c, b)
			for i := 0; i <= len(b); i++ {
				for j := 0; j < len(alpha); j++ {
					checkText(c, b[:i]+alpha[j:j+1]+b[i:])
					if i < len(b) {
						checkText(c, b[:i]+alpha[j:j+1]+b[i+1:])
					}
				}
				if i < len(b) {
					checkText(c, b[:i]+b[i+1:])
				}
			}
			checkText(c, strings.ToUpper(b))
			c.States++
			c.Traces++
		})
	}
	for i, a := range base {
		i, a := i, a
		if i%14 != 0 {
			continue
		}
		// every length
		c.Case(func() {
			for l := 0; l <= 200; l++ {
				checkText(c, fmt.Sprintf("%s/%d", a, l))
			}
			c.States++
			c.Traces++
		})
	}
}

func patterns(n int) [][]byte {
	var out [][]byte
	add := func(f func(i int) byte) {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		out = append(out, b)
	}
	add(func(int) byte { return 0 })
	add(func(int) byte { return 255 })
	add(func(i int) byte { return byte(i + 1) })
	add(func(i int) byte { return 0x55 << uint(i%2) })
	add(func(i int) byte { // IPv4-mapped
		if i == n-5 || i == n-6 {
			return 255
		}
		if i > n-5 {
			return byte(i)
		}
		return 0
	})
	for k := 0; k < n; k++ {
		for _, v := range []byte{1, 0x7f, 0x80, 0xff} {
			k, v := k, v
			add(func(i int) byte {
				if i == k {
					return v
				}
				return 0
			})
			add(func(i int) byte {
				if i == k {
					return ^v
				}
				return 255
			})
		}
	}
	// masks
	for l := 0; l <= 8*n; l++ {
		l := l
		add(func(i int) byte {
			switch {
			case 8*i+8 <= l:
				return 255
			case 8*i >= l:
				return 0
			}
			return byte(0xff << uint(8*i+8-l))
		})
	}
	return out
}

func wantIP(b net.IP) []out {
	switch len(b) {
	case 4:
		a, err := ipv4.AddressFromNetIP(b)
		return []out{mk(a, err)}
	case 16:
		a, err := ipv6.AddressFromNetIP(b)
		return []out{mk(a, err)}
	}
	return []out{{nil, true}}
}

func netIPs(c *rt.Ctx) {
	for n := 0; n <= 33; n++ {
		n := n
		c.Case(func() {
			ps := patterns(n)
			if n == 0 {
				ps = append(ps, nil)
			}
			for _, b := range ps {
				got, err := ip.AddressFromNetIP(net.IP(b))
				same(c, func() string { return fmt.Sprintf("AddressFromNetIP(%v)", b) }, mk(got, err), wantIP(b)...)
				c.States++
			}
			c.Traces++
		})
	}
}

func wantMask(b net.IPMask) []out {
	switch len(b) {
	case 4:
		m, err := ipv4.MaskFromNetIPMask(b)
		return []out{mk(m, err)}
	case 16:
		m, err := ipv6.MaskFromNetIPMask(b)
		return []out{mk(m, err)}
	}
	return []out{{nil, true}}
}

func netMasks(c *rt.Ctx) {
	for n := 0; n <= 33; n++ {
		n := n
		c.Case(func() {
			ps := patterns(n)
			if n == 0 {
				ps = append(ps, nil)
			}
			if n == 4 || n == 16 {
				// every contiguous one with every bit flipped
				for l := 0; l <= 8*n; l++ {
					for k := 0; k < 8*n; k++ {
						b := []byte(net.CIDRMask(l, 8*n))
						b[k/8] ^= 0x80 >> uint(k%8)
						ps = append(ps, b)
					}
				}
			}
			for _, b := range ps {
				got, err := ip.MaskFromNetIPMask(net.IPMask(b))
				same(c, func() string { return fmt.Sprintf("MaskFromNetIPMask(%v)", b) }, mk(got, err), wantMask(b)...)
				c.States++
			}
			c.Traces++
		})
	}
}

func netNets(c *rt.Ctx) {
	check := func(n *net.IPNet) {
		want := []out{{nil, true}}
		if n != nil {
			switch len(n.IP) {
			case 4:
				p, err := ipv4.PrefixFromNetIPNet(n)
				want = []out{mk(p, err)}
			case 16:
				p, err := ipv6.PrefixFromNetIPNet(n)
				want = []out{mk(p, err)}
			}
		}
		got, err := ip.PrefixFromNetIPNet(n)
		same(c, func() string { return fmt.Sprintf("PrefixFromNetIPNet(%v)", n) }, mk(got, err), want...)
		c.States++
	}
	c.Case(func() {
		check(nil)
		check(&net.IPNet{})
		c.Traces++
	})
	for _, n := range []int{0, 1, 3, 4, 5, 8, 15, 16, 17, 20, 32} {
		for _, m := range []int{0, 1, 3, 4, 5, 8, 12, 15, 16, 17, 20} {
			n, m := n, m
			c.Case(func() {
				for _, b := range patterns(n) {
					for _, k := range patterns(m) {
						check(&net.IPNet{IP: b, Mask: k})
					}
				}
				c.Traces++
			})
		}
	}
}

// Types that are neither family's.
type foreignA struct{ ipv4.Address }
type foreignA6 struct{ ipv6.Address }
type foreignP struct{ ipv4.Prefix }
type foreignM struct{ ipv4.Mask }
type foreignM6 struct{ ipv6.Mask }
type foreignR struct{ ipv4.Range }
type text string

func (t text) String() string { return string(t) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func typed(c *rt.Ctx) {
	var as []ip.Address
	var ms []ip.Mask
	var ps []ip.Prefix
	var rs []ip.Range
	as = append(as, nil)
	ms = append(ms, nil)
	ps = append(ps, nil)
	rs = append(rs, nil, text("::1"))
	for _, b := range patterns(4) {
		a, err := ipv4.AddressFromSlice(b)
		must(err)
		as = append(as, a)
	}
	for _, b := range patterns(16) {
		a, err := ipv6.AddressFromSlice(b)
		must(err)
		as = append(as, a)
	}
	for l := 0; l <= 32; l++ {
		m, err := ipv4.MaskFromLength(l)
		must(err)
		ms = append(ms, m)
	}
	for l := 0; l <= 128; l++ {
		m, err := ipv6.MaskFromLength(l)
		must(err)
		ms = append(ms, m)
	}
	one, two := ipv4.AddressFromBytes(1, 2, 3, 4), ipv6.AddressFromUint64(1, 2)
	as = append(as, foreignA{one}, foreignA6{two}, &one, &two)
	m4, m6 := ms[9].(ipv4.Mask), ms[100].(ipv6.Mask)
	ms = append(ms, foreignM{m4}, foreignM6{m6}, &m4, &m6)
	nA, nM := len(as), len(ms)

	for i := range as {
		i := i
		c.Case(func() {
			a := as[i]
			for j := 0; j < nM; j++ {
				m := ms[j]
				want := out{nil, true}
				switch a := a.(type) {
				case ipv4.Address:
					if m, ok := m.(ipv4.Mask); ok {
						want = out{ipv4.PrefixFromAddressMask(a, m), false}
					}
				case ipv6.Address:
					if m, ok := m.(ipv6.Mask); ok {
						want = out{ipv6.PrefixFromAddressMask(a, m), false}
					}
				}
				got, err := ip.PrefixFromAddressMask(a, m)
				same(c, func() string { return fmt.Sprintf("PrefixFromAddressMask(%T %v, %T %v)", a, a, m, m) }, mk(got, err), want)
				c.States++
			}
			for j := 0; j < nA; j++ {
				b := as[j]
				want, wantEmpty := out{nil, true}, false
				switch a := a.(type) {
				case ipv4.Address:
					if b, ok := b.(ipv4.Address); ok {
						r, e := ipv4.RangeFromAddresses(a, b)
						want, wantEmpty = out{r, false}, e
					}
				case ipv6.Address:
					if b, ok := b.(ipv6.Address); ok {
						r, e := ipv6.RangeFromAddresses(a, b)
						want, wantEmpty = out{r, false}, e
					}
				}
				got, empty, err := ip.RangeFromAddresses(a, b)
				what := func() string { return fmt.Sprintf("RangeFromAddresses(%T %v, %T %v)", a, a, b, b) }
				same(c, what, mk(got, err), want)
				if err == nil && empty != wantEmpty {
					c.Failf("%s reports empty: %v, want %v", what(), empty, wantEmpty)
				}
				c.States++
			}
			var want interface{}
			switch a := a.(type) {
			case ipv4.Address:
				want = a.Prefix()
			case ipv6.Address:
				want = a.Prefix()
			}
			same(c, func() string { return fmt.Sprintf("PrefixFromAddress(%T %v)", a, a) }, out{ip.PrefixFromAddress(a), false}, out{want, false})
			c.Traces++
		})
	}

	// prefixes: every address with every length of its family
	addP := func(a ip.Address) []ip.Prefix {
		var out []ip.Prefix
		switch a := a.(type) {
		case ipv4.Address:
			for l := 0; l <= 32; l++ {
				out = append(out, ipv4.PrefixFromAddressMask(a, ms[1+l].(ipv4.Mask)))
			}
		case ipv6.Address:
			for l := 0; l <= 128; l++ {
				out = append(out, ipv6.PrefixFromAddressMask(a, ms[34+l].(ipv6.Mask)))
			}
		}
		return out
	}
	checkP := func(p ip.Prefix) {
		var a, m, r interface{}
		switch p := p.(type) {
		case ipv4.Prefix:
			a, m, r = p.Address(), p.Mask(), p.Range()
		case ipv6.Prefix:
			a, m, r = p.Address(), p.Mask(), p.Range()
		}
		what := func(f string) func() string { return func() string { return fmt.Sprintf("%s(%T %v)", f, p, p) } }
		same(c, what("AddressFromPrefix"), out{ip.AddressFromPrefix(p), false}, out{a, false})
		same(c, what("MaskFromPrefix"), out{ip.MaskFromPrefix(p), false}, out{m, false})
		same(c, what("RangeFromPrefix"), out{ip.RangeFromPrefix(p), false}, out{r, false})
		c.States++
	}
	checkR := func(r ip.Range) {
		var f, l interface{}
		switch r := r.(type) {
		case ipv4.Range:
			f, l = r.First(), r.Last()
		case ipv6.Range:
			f, l = r.First(), r.Last()
		}
		what := func(f string) func() string { return func() string { return fmt.Sprintf("%s(%T %v)", f, r, r) } }
		same(c, what("FirstFromRange"), out{ip.FirstFromRange(r), false}, out{f, false})
		same(c, what("LastFromRange"), out{ip.LastFromRange(r), false}, out{l, false})
		c.States++
	}
	for i := range as {
		i := i
		c.Case(func() {
			for _, p := range addP(as[i]) {
				checkP(p)
				switch p := p.(type) {
				case ipv4.Prefix:
					checkR(p.Range())
				case ipv6.Prefix:
					checkR(p.Range())
				}
			}
			for j := range as {
				switch a := as[i].(type) {
				case ipv4.Address:
					if b, ok := as[j].(ipv4.Address); ok {
						if r, e := ipv4.RangeFromAddresses(a, b); !e {
							checkR(r)
						}
					}
				case ipv6.Address:
					if b, ok := as[j].(ipv6.Address); ok {
						if r, e := ipv6.RangeFromAddresses(a, b); !e {
							checkR(r)
						}
					}
				}
			}
			c.Traces++
		})
	}
	c.Case(func() {
		p4, p6 := one.Prefix(), two.Prefix()
		for _, p := range append(ps, foreignP{p4}, &p4, &p6) {
			checkP(p)
		}
		r4, r6 := p4.Range(), p6.Range()
		for _, r := range append(rs, foreignR{r4}, &r4, &r6, one, two, p4, p6) {
			checkR(r)
		}
		c.Traces++
	})
}
