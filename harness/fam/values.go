package fam

import (
	"bytes"
	"fmt"
	"math/big"
	"net"
	"net/netip"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regValues() {
	reg("C07", "every length and boundary address", c07Arith)
	reg("C07", "counts of sub-prefixes", c07Counts)
	reg("C07", "halves all the way down", c07Halves)

	reg("C22", "addresses", c22Addresses)
	reg("C22", "prefixes", c22Prefixes)
	reg("C22", "rejected inputs", c22Rejects)
	reg("C22", "text forms", c22Text)
	reg("C22", "aliasing", c22Alias)

	reg("C23", "masks near contiguous patterns", c23Masks)
	reg("C23", "masks from lengths and net masks", c23Lengths)
	reg("C23", "address and mask", c23Combine)
}

// ---------------------------------------------------------------- C07

func checkPrefixArith(c *rt.Ctx, pp ref.P) {
	P := mkP(pp)
	what := func() string { return "prefix " + pp.Str(W) }
	eq := func(name string, got, want interface{}) {
		if got != want {
			c.Failf("%s: %s is %v, want %v", what(), name, got, want)
		}
	}
	if up(P) != pp {
		c.Failf("%s: address %v, length %d", what(), P.Address(), P.Length())
	}
	mask := ref.LowMask(W - pp.Len).Not().And(ref.Max(W))
	eq("Mask", um(P.Mask()), mask)
	eq("Mask length", P.Mask().Length(), pp.Len)
	eq("Network", up(P.Network()), ref.P{A: pp.Net(W), Len: pp.Len})
	eq("Host", up(P.Host()), ref.P{A: pp.A.And(mask.Not()), Len: pp.Len})
	if b, ok := broadcast(P); ok {
		eq("Broadcast", up(b), ref.P{A: pp.Last(W), Len: pp.Len})
	}
	eq("Range", ur(P.Range()), pp.Iv(W))
	a, m := prefixNums(P)
	eq("address number", a, pp.A)
	eq("mask number", m, mask)
	eq("Prefix", P.Prefix(), P)
	eq("Prefix of address", up(P.Address().Prefix()), ref.P{A: pp.A, Len: W})
	eq("NumBits", P.Address().NumBits(), W)
	eq("String", P.String(), pp.Str(W))
	if pp.Len < W {
		x, y := P.Halves()
		eq("first half", up(x), ref.P{A: pp.Net(W), Len: pp.Len + 1})
		eq("second half", up(y), ref.P{A: pp.Net(W).Or(ref.BitAt(W, pp.Len)), Len: pp.Len + 1})
	}
	eq("network and host combined", ua(P.Network().Address()).Or(ua(P.Host().Address())), pp.A)
	if up(P) != pp {
		c.Failf("%s was changed to %v", what(), P)
	}
	c.Trans += 12
	c.States++
}

func c07Arith(c *rt.Ctx) {
	span := 1
	if c.Thorough {
		span = 3
	}
	addrs := boundaries(span)
	for l := 0; l <= W; l++ {
		for i := 0; i < len(addrs); i += 32 {
			l, i := l, i
			c.Case(func() {
				for j := i; j < i+32 && j < len(addrs); j++ {
					checkPrefixArith(c, ref.P{A: addrs[j], Len: l})
				}
				c.Traces++
			})
		}
		c.Sample(func() string {
			return fmt.Sprintf("%s/%d ... %s/%d", addrs[1].Str(W), l, addrs[len(addrs)-2].Str(W), l)
		})
	}
	// address bits set exactly at, before and after the length
	for l := 0; l <= W; l++ {
		l := l
		c.Case(func() {
			for b := 0; b < W; b++ {
				checkPrefixArith(c, ref.P{A: ref.BitAt(W, b), Len: l})
				checkPrefixArith(c, ref.P{A: ref.BitAt(W, b).Not().And(ref.Max(W)), Len: l})
				if c.Thorough {
					for b2 := 0; b2 < W; b2++ {
						checkPrefixArith(c, ref.P{A: ref.BitAt(W, b).Or(ref.BitAt(W, b2)), Len: l})
					}
				}
			}
			c.Traces++
		})
	}
	c.Case(func() {
		if up(ip.Prefix{}) != (ref.P{}) || ip.Prefix.String(ip.Prefix{}) != (ref.P{}).Str(W) {
			c.Failf("zero prefix is %v", ip.Prefix{})
		}
		if ua(ip.Address{}) != ref.Zero {
			c.Failf("zero address is %v", ip.Address{})
		}
	})
}

func c07Counts(c *rt.Ctx) {
	for l := 0; l <= W; l++ {
		l := l
		c.Case(func() {
			for p := 0; p < nPat; p++ {
				for _, host := range []bool{false, true} {
					pp := ref.P{A: top(pattern(p), l), Len: l}
					if host {
						pp.A = pattern(p)
					}
					P := mkP(pp)
					for n := 0; n <= W; n++ {
						want := new(big.Int)
						if n >= l {
							want.Lsh(big.NewInt(1), uint(n-l))
						}
						got, err := P.NumPrefixes(uint32(n))
						checkCount(c, got, err, want, func() string { return fmt.Sprintf("%v: NumPrefixes(%d)", P, n) })
						got, err = P.Range().NumPrefixes(uint32(n))
						checkCount(c, got, err, want, func() string { return fmt.Sprintf("range of %v: NumPrefixes(%d)", P, n) })
						c.Trans += 2
					}
					for _, n := range []uint32{uint32(W) + 1, uint32(W) + 2, 255, 256, 1 << 16, 1<<31 - 1, 1 << 31, ^uint32(0)} {
						if got, err := P.NumPrefixes(n); err == nil {
							c.Failf("%v: NumPrefixes(%d) is %d without an error", P, n, got)
						}
						c.Trans++
					}
					if n, ok := prefixCount(P); ok {
						want := new(big.Int).Lsh(big.NewInt(1), uint(W-l))
						if n.Cmp(want) != 0 {
							c.Failf("%v: NumAddresses is %v, want %v", P, n, want)
						}
					}
					c.States++
				}
			}
			c.Traces++
		})
	}
}

// c07Halves: following every path of zero, one or alternating halves gives the
// prefixes in order and without gaps.
func c07Halves(c *rt.Ctx) {
	for p := 0; p < nPat; p++ {
		for flip := -1; flip < W; flip++ {
			path := pattern(p)
			if flip >= 0 {
				path = path.Xor(ref.BitAt(W, flip))
			}
			c.Case(func() {
				P := mkP(ref.P{})
				for l := 0; l < W; l++ {
					a, b := P.Halves()
					if ua(a.Range().First()) != ua(P.Range().First()) || ua(b.Range().Last()) != ua(P.Range().Last()) ||
						ua(a.Range().Last()).Inc() != ua(b.Range().First()) {
						c.Failf("halves of %v are %v and %v", P, a, b)
					}
					P = a
					if path.Bit(W, l) == 1 {
						P = b
					}
					if up(P) != (ref.P{A: top(path, l+1), Len: l + 1}) {
						c.Failf("half reached is %v, want %s", P, ref.P{A: top(path, l+1), Len: l + 1}.Str(W))
					}
					c.Trans++
				}
				c.States++
				c.Traces++
			})
		}
	}
}

// ---------------------------------------------------------------- C22

func netIP(u ref.U) net.IP { return net.IP(u.Bytes(W)) }

// valueAddresses: every value of every byte of otherwise zero, all ones and
// alternating addresses, and the boundaries.
func valueAddresses(thorough bool) []ref.U {
	span := 1
	if thorough {
		span = 2
	}
	out := boundaries(span)
	seen := map[ref.U]bool{}
	for _, u := range out {
		seen[u] = true
	}
	add := func(u ref.U) {
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	shl := func(v uint64, n int) ref.U {
		u := ref.U{Lo: v}
		for i := 0; i < n; i++ {
			u = u.Add(u)
		}
		return u
	}
	for _, base := range []ref.U{pattern(patZeros), pattern(patOnes), pattern(patAlt)} {
		for i := 0; i < W; i += 8 {
			clear := base.And(shl(0xff, i).Not())
			for v := uint64(0); v < 256; v++ {
				add(clear.Or(shl(v, i)))
			}
		}
		// runs of zero words, for "::"
		for i := 0; i < W; i += 16 {
			for j := i + 16; j <= W; j += 16 {
				z := ref.LowMask(j).Xor(ref.LowMask(i)).Not()
				add(base.And(z))
				add(pattern(patAlt2).And(z))
			}
		}
	}
	for _, p := range places() {
		q := ref.P{A: p.base, Len: p.len}
		for _, u := range []ref.U{p.base.Inc(), q.Last(W).Inc().And(ref.Max(W))} {
			add(u.And(ref.Max(W)))
		}
	}
	// every combination of zero words
	for m := uint64(0); m < 1<<(W/16); m++ {
		for _, word := range []uint64{1, 0xffff, 0xa0b, 0x10} {
			u := ref.Zero
			for i := 0; i < W/16; i++ {
				if m>>uint(i)&1 == 1 {
					u = u.Or(shl(word, 16*i))
				}
			}
			add(u)
		}
	}
	if W == 128 {
		for _, v := range []uint64{0, 1, 0x01020304, 0x0a000000, 0xffffffff, 0x7f000001} {
			add(ref.U{Lo: 0xffff<<32 | v})          // IPv4-mapped
			add(ref.U{Lo: v})                       // IPv4-compatible
			add(ref.U{Lo: 0xfffe<<32 | v})          // not quite mapped
			add(ref.U{Hi: 1, Lo: 0xffff<<32 | v})   // not mapped
			add(ref.U{Lo: 0x1ffff<<32 | v})         // not mapped
			add(ref.U{Hi: 0x64ff9b << 32, Lo: v})   // NAT64
			add(ref.U{Hi: 0x20020000<<32 | v<<16})  // 6to4
			add(ref.U{Hi: 0xfe80 << 48, Lo: v})     // link local
			add(ref.U{Hi: 0x20010db8 << 32, Lo: v}) // documentation
		}
	}
	return out
}

func checkAddress(c *rt.Ctx, u ref.U) {
	want := mkA(u)
	what := func() string { return "address " + u.Str(W) }
	same := func(how string, a ip.Address, err error) {
		if err != nil {
			c.Failf("%s: %s fails: %v", what(), how, err)
		}
		if a != want || ua(a) != u {
			c.Failf("%s: %s gives %v", what(), how, a)
		}
		c.Trans++
	}
	for _, m := range addressMakers(u) {
		same(m.name, m.v, nil)
	}
	s := want.String()
	a, err := ip.AddressFromString(s)
	same("String "+s+" and AddressFromString", a, err)
	if s != u.Str(W) {
		c.Failf("%s: shows as %s", what(), s)
	}
	b := u.Bytes(W)
	a, err = ip.AddressFromSlice(b)
	same("AddressFromSlice", a, err)
	a, err = ip.AddressFromNetIP(netIP(u))
	same("AddressFromNetIP", a, err)
	if W == 32 {
		a, err = ip.AddressFromNetIP(netIP(u).To16())
		same("AddressFromNetIP of the 16 byte form", a, err)
	}
	n := want.ToNetIP()
	if !bytes.Equal(n, b) {
		c.Failf("%s: ToNetIP is %v", what(), []byte(n))
	}
	a, err = ip.AddressFromNetIP(n)
	same("ToNetIP and AddressFromNetIP", a, err)
	if want.NumBits() != W {
		c.Failf("%s: NumBits is %d", what(), want.NumBits())
	}
	c.States++
	c.Traces++
}

func c22Addresses(c *rt.Ctx) {
	as := valueAddresses(c.Thorough)
	if c.Shard == 0 {
		c.Note("addresses", int64(len(as)))
	}
	for i := 0; i < len(as); i += 16 {
		i := i
		c.Case(func() {
			for j := i; j < i+16 && j < len(as); j++ {
				checkAddress(c, as[j])
			}
		})
		c.Sample(func() string { return as[len(as)/2].Str(W) + " by number, text, bytes and net.IP" })
	}
}

func checkPrefixRound(c *rt.Ctx, pp ref.P) {
	P := mkP(pp)
	same := func(how string, got ip.Prefix, err error) {
		if err != nil {
			c.Failf("prefix %s: %s fails: %v", pp.Str(W), how, err)
		}
		if got != P || up(got) != pp {
			c.Failf("prefix %s: %s gives %v", pp.Str(W), how, got)
		}
		c.Trans++
	}
	s := P.String()
	if s != pp.Str(W) {
		c.Failf("prefix %s shows as %s", pp.Str(W), s)
	}
	q, err := ip.PrefixFromString(s)
	same("String "+s+" and PrefixFromString", q, err)
	n := P.ToNetIPNet()
	if !bytes.Equal(n.IP, pp.A.Bytes(W)) || !bytes.Equal(n.Mask, net.CIDRMask(pp.Len, W)) {
		c.Failf("prefix %s: ToNetIPNet is %v %v", pp.Str(W), n.IP, n.Mask)
	}
	q, err = ip.PrefixFromNetIPNet(n)
	same("ToNetIPNet and PrefixFromNetIPNet", q, err)
	same("PrefixFromAddressMask of its parts", ip.PrefixFromAddressMask(P.Address(), P.Mask()), nil)
	c.States++
}

func c22Prefixes(c *rt.Ctx) {
	as := valueAddresses(false)
	if !c.Thorough {
		var keep []ref.U
		for i, a := range as {
			if i%5 == 0 || i > len(as)-60 {
				keep = append(keep, a)
			}
		}
		as = keep
	}
	for l := 0; l <= W; l++ {
		for i := 0; i < len(as); i += 64 {
			l, i := l, i
			c.Case(func() {
				for j := i; j < i+64 && j < len(as); j++ {
					checkPrefixRound(c, ref.P{A: as[j], Len: l})
				}
				c.Traces++
			})
		}
	}
}

func c22Rejects(c *rt.Ctx) {
	// slices and net.IPs of every size but the right one
	for n := 0; n <= 40; n++ {
		n := n
		c.Case(func() {
			b := make([]byte, n)
			for fill := 0; fill < 2; fill++ {
				for i := range b {
					b[i] = byte(fill * 0xff)
				}
				a, err := ip.AddressFromSlice(b)
				if (err == nil) != (n == W/8) {
					c.Failf("AddressFromSlice of %d bytes gives %v, %v", n, a, err)
				}
				a, err = ip.AddressFromNetIP(net.IP(b))
				ok := n == W/8
				if !ok && (err == nil) {
					c.Failf("AddressFromNetIP of %d bytes gives %v, %v", n, a, err)
				}
				if ok && err != nil {
					c.Failf("AddressFromNetIP of %d bytes fails: %v", n, err)
				}
				for _, ones := range []int{0, 8, W} {
					for _, bits := range []int{32, 128} {
						if ones > bits {
							continue
						}
						p, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: net.IP(b), Mask: net.CIDRMask(ones, bits)})
						if (err == nil) != (n == W/8 && bits == W) {
							c.Failf("PrefixFromNetIPNet of %d bytes and a mask of %d bits gives %v, %v", n, bits, p, err)
						}
					}
				}
				c.Trans += 2
			}
			c.States++
			c.Traces++
		})
	}
	c.Case(func() {
		if a, err := ip.AddressFromSlice(nil); err == nil {
			c.Failf("AddressFromSlice(nil) gives %v", a)
		}
		if a, err := ip.AddressFromNetIP(nil); err == nil {
			c.Failf("AddressFromNetIP(nil) gives %v", a)
		}
		if p, err := ip.PrefixFromNetIPNet(nil); err == nil {
			c.Failf("PrefixFromNetIPNet(nil) gives %v", p)
		}
		good := netIP(pattern(patAlt))
		for _, m := range []net.IPMask{nil, {}, {0xff}, make(net.IPMask, W/8-1), make(net.IPMask, W/8+1), append(net.IPMask{0, 0xff}, make(net.IPMask, W/8-2)...)} {
			if p, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: good, Mask: m}); err == nil {
				c.Failf("PrefixFromNetIPNet with mask %v gives %v", []byte(m), p)
			}
		}
		if p, err := ip.PrefixFromNetIPNet(&net.IPNet{Mask: net.CIDRMask(8, W)}); err == nil {
			c.Failf("PrefixFromNetIPNet without an address gives %v", p)
		}
		if W == 128 {
			// the other family in 4 bytes
			if a, err := ip.AddressFromNetIP(net.IPv4(1, 2, 3, 4).To4()); err == nil {
				c.Failf("AddressFromNetIP(1.2.3.4) gives %v", a)
			}
		} else {
			if a, err := ip.AddressFromNetIP(net.ParseIP("2001:db8::1")); err == nil {
				c.Failf("AddressFromNetIP(2001:db8::1) gives %v", a)
			}
		}
		c.Trans += 10
		c.Traces++
	})
	// lengths in text
	for l := -2; l <= 300; l++ {
		l := l
		c.Case(func() {
			for _, a := range []ref.U{ref.Zero, pattern(patAlt), ref.Max(W)} {
				s := fmt.Sprintf("%s/%d", a.Str(W), l)
				p, err := ip.PrefixFromString(s)
				ok := l >= 0 && l <= W
				if (err == nil) != ok {
					c.Failf("PrefixFromString(%q) gives %v, %v", s, p, err)
				}
				if ok && up(p) != (ref.P{A: a, Len: l}) {
					c.Failf("PrefixFromString(%q) gives %v", s, p)
				}
				m, err := ip.MaskFromLength(l)
				if (err == nil) != ok {
					c.Failf("MaskFromLength(%d) gives %v, %v", l, m, err)
				}
				c.Trans += 2
			}
			c.Traces++
			c.States++
		})
	}
}

// c22Text: all strings up to a length over a small alphabet, and edits of good
// ones, accepted exactly when netip accepts them (for the family).
func c22Text(c *rt.Ctx) {
	alpha := "0127.:/a "
	var good []string
	if W == 32 {
		good = []string{"0.0.0.0", "1.2.3.4", "255.255.255.255", "10.224.24.1", "127.0.0.1", "1.20.99.200"}
	} else {
		good = []string{"::", "::1", "2001:db8::1", "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "fe80::1:0:0:2", "::ffff:1.2.3.4", "64:ff9b::102:304", "1::", "::2:3:4:5:6:7:8", "fe80::1%eth0"}
	}
	check := func(s string) {
		a, err := ip.AddressFromString(s)
		na, nerr := netip.ParseAddr(s)
		c.Trans++
		switch {
		case nerr == nil && na.Zone() != "":
			if err == nil {
				c.Failf("AddressFromString(%q) gives %v, which has lost the zone", s, a)
			}
		case nerr == nil && W == 32 && na.Is4In6():
			// whether IPv4 accepts this is left open
			if err == nil && !bytes.Equal(ua(a).Bytes(W), na.Unmap().AsSlice()) {
				c.Failf("AddressFromString(%q) gives %v", s, a)
			}
		case nerr == nil && na.BitLen() == W:
			if err != nil {
				c.Failf("AddressFromString(%q) fails: %v", s, err)
			}
			if got := ua(a).Bytes(W); !bytes.Equal(got, na.AsSlice()) {
				c.Failf("AddressFromString(%q) gives %v, want %v", s, a, na)
			}
		default:
			if err == nil {
				c.Failf("AddressFromString(%q) gives %v, want an error", s, a)
			}
		}
	}
	checkP := func(s string) {
		p, err := ip.PrefixFromString(s)
		np, nerr := netip.ParsePrefix(s)
		c.Trans++
		switch {
		case nerr == nil && W == 32 && np.Addr().Is4In6():
			// whether IPv4 accepts this, and as which length, is left open
			if err == nil && !bytes.Equal(ua(p.Address()).Bytes(W), np.Addr().Unmap().AsSlice()) {
				c.Failf("PrefixFromString(%q) gives %v", s, p)
			}
		case nerr == nil && np.Addr().BitLen() == W:
			if err != nil {
				c.Failf("PrefixFromString(%q) fails: %v", s, err)
			}
			if !bytes.Equal(ua(p.Address()).Bytes(W), np.Addr().AsSlice()) || p.Length() != np.Bits() {
				c.Failf("PrefixFromString(%q) gives %v, want %v", s, p, np)
			}
		default:
			// net.ParseCIDR is a little more lenient than netip (leading zeros in
			// the length); only insist when it fails too
			if _, _, e2 := net.ParseCIDR(s); e2 != nil && err == nil {
				c.Failf("PrefixFromString(%q) gives %v, want an error", s, p)
			}
			if nerr == nil && err == nil {
				c.Failf("PrefixFromString(%q) gives %v although it is of the other family", s, p)
			}
		}
	}
	n := 4
	if c.Thorough {
		n = 6
	}
	for i := range alpha {
		for j := range alpha {
			prefix := string(alpha[i]) + string(alpha[j])
			c.Case(func() {
				var rec func(s string)
				rec = func(s string) {
					check(s)
					checkP(s)
					if len(s) < n {
						for k := range alpha {
							rec(s + string(alpha[k]))
						}
					}
				}
				rec(prefix)
				check(string(alpha[i]))
				c.States++
				c.Traces++
			})
		}
	}
	for _, g := range append(append([]string(nil), good...), "1.2.3.4", "2001:db8::1") {
		for _, suffix := range []string{"", "/0", "/8", "/24", "/32", "/33", "/64", "/128", "/129", "/-1", "/", "/x", "/1/2", "/08"} {
			s := g + suffix
			c.Case(func() {
				try := func(x string) { check(x); checkP(x) }
				try(s)
				for i := 0; i <= len(s); i++ {
					if i < len(s) {
						try(s[:i] + s[i+1:])
					}
					for k := range alpha {
						try(s[:i] + string(alpha[k]) + s[i:])
						if i < len(s) {
							try(s[:i] + string(alpha[k]) + s[i+1:])
						}
					}
				}
				c.States++
				c.Traces++
			})
		}
	}
}

func c22Alias(c *rt.Ctx) {
	for p := 0; p < nPat; p++ {
		for pos := 0; pos < W/8; pos++ {
			p, pos := p, pos
			c.Case(func() {
				u := pattern(p)
				A := mkA(u)
				P := ip.PrefixFromAddressMask(A, mkMask(W/2+1))
				M := mkMask(W/2 + 1)
				set := P.Set()
				b := u.Bytes(W)
				fromSlice, _ := ip.AddressFromSlice(b)
				fromIP, _ := ip.AddressFromNetIP(net.IP(b))
				ipn := &net.IPNet{IP: net.IP(b), Mask: net.CIDRMask(W/2+1, W)}
				fromNet, _ := ip.PrefixFromNetIPNet(ipn)
				nm := net.CIDRMask(W/2+1, W)
				fromMask, _ := ip.MaskFromNetIPMask(nm)
				setText := set.String()
				// overwrite everything that was handed in and out
				b[pos] ^= 0xff
				nm[pos] ^= 0xff
				ipn.Mask[pos] ^= 0xff
				out := []([]byte){A.ToNetIP(), P.ToNetIPNet().IP, P.ToNetIPNet().Mask, M.ToNetIPMask(), fromNet.ToNetIPNet().IP}
				for _, o := range out {
					o[pos] ^= 0xff
				}
				if ua(fromSlice) != u || ua(fromIP) != u || up(fromNet) != (ref.P{A: u, Len: W/2 + 1}) || fromMask.Length() != W/2+1 {
					c.Failf("overwriting the input changed a value: %v %v %v %v", fromSlice, fromIP, fromNet, fromMask)
				}
				if ua(A) != u || up(P) != (ref.P{A: u, Len: W/2 + 1}) || M.Length() != W/2+1 || set.String() != setText {
					c.Failf("overwriting the output changed a value: %v %v %v %v", A, P, M, set)
				}
				if !bytes.Equal(A.ToNetIP(), u.Bytes(W)) || !bytes.Equal(M.ToNetIPMask(), net.CIDRMask(W/2+1, W)) {
					c.Failf("overwriting the output changed later outputs")
				}
				c.Trans += 9
				c.States++
				c.Traces++
			})
		}
	}
}

// ---------------------------------------------------------------- C23

func contiguous(u ref.U) (int, bool) {
	for l := 0; l <= W; l++ {
		if ref.LowMask(W-l).Not().And(ref.Max(W)) == u {
			return l, true
		}
	}
	return 0, false
}

func checkMask(c *rt.Ctx, u ref.U) {
	l, ok := contiguous(u)
	what := func() string { return "mask " + u.Str(W) }
	check := func(how string, m ip.Mask, err error) {
		c.Trans++
		if (err == nil) != ok {
			c.Failf("%s: %s gives %v, %v", what(), how, m, err)
		}
		if !ok {
			return
		}
		if um(m) != u || m.Length() != l || m.String() != u.Str(W) || !bytes.Equal(m.ToNetIPMask(), u.Bytes(W)) {
			c.Failf("%s: %s gives %v of length %d, net mask %v", what(), how, m, m.Length(), m.ToNetIPMask())
		}
		if m != mkMask(l) {
			c.Failf("%s: %s gives a mask that differs from MaskFromLength(%d)", what(), how, l)
		}
	}
	for _, mm := range maskMakers(u) {
		m, err := mm.make()
		check(mm.name, m, err)
	}
	m, err := ip.MaskFromNetIPMask(net.IPMask(u.Bytes(W)))
	check("MaskFromNetIPMask", m, err)
	c.States++
}

func c23Masks(c *rt.Ctx) {
	flips := 2
	if c.Thorough && W == 32 {
		flips = 3
	}
	for l := 0; l <= W; l++ {
		base := ref.LowMask(W - l).Not().And(ref.Max(W))
		for b := 0; b < W; b++ {
			b := b
			base := base
			c.Case(func() {
				checkMask(c, base)
				one := base.Xor(ref.BitAt(W, b))
				checkMask(c, one)
				for b2 := b + 1; b2 < W; b2++ {
					two := one.Xor(ref.BitAt(W, b2))
					checkMask(c, two)
					if flips == 3 {
						for b3 := b2 + 1; b3 < W; b3++ {
							checkMask(c, two.Xor(ref.BitAt(W, b3)))
						}
					}
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("patterns within %d bits of %s", flips, base.Str(W)) })
	}
	// every pattern of the top and bottom 12 bits with the rest zero or one
	for hi := 0; hi < 1<<12; hi += 16 {
		hi := hi
		c.Case(func() {
			for x := hi; x < hi+16; x++ {
				for _, fill := range []ref.U{ref.Zero, ref.Max(W)} {
					t := ref.Zero
					for i := 0; i < 12; i++ {
						if x>>uint(11-i)&1 == 1 {
							t = t.Or(ref.BitAt(W, i))
						}
					}
					checkMask(c, t.Or(fill.And(ref.LowMask(W-12))))
					checkMask(c, ref.U{Lo: uint64(x)}.Or(fill.And(ref.LowMask(12).Not()).And(ref.Max(W))))
					if W == 128 {
						// around the middle
						checkMask(c, ref.U{Hi: ^uint64(63), Lo: 0}.Xor(ref.U{Hi: uint64(x) >> 6, Lo: uint64(x&63) << 58}))
					}
				}
			}
			c.Traces++
		})
	}
}

func c23Lengths(c *rt.Ctx) {
	for l := -300; l <= 300; l++ {
		l := l
		c.Case(func() {
			m, err := ip.MaskFromLength(l)
			ok := l >= 0 && l <= W
			if (err == nil) != ok {
				c.Failf("MaskFromLength(%d) gives %v, %v", l, m, err)
			}
			if ok {
				want := ref.LowMask(W - l).Not().And(ref.Max(W))
				if um(m) != want || m.Length() != l || m.String() != want.Str(W) {
					c.Failf("MaskFromLength(%d) gives %v of length %d", l, m, m.Length())
				}
			}
			c.Trans++
			c.States++
			c.Traces++
		})
	}
	c.Case(func() {
		for _, l := range []int64{-1 << 62, -1 << 32, -1 << 31, 1 << 8, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 8, 1 << 62} {
			if int64(int(l)) != l {
				continue // a platform with small ints
			}
			if m, err := ip.MaskFromLength(int(l)); err == nil {
				c.Failf("MaskFromLength(%d) gives %v", l, m)
			}
		}
		if m := (ip.Mask{}); m.Length() != 0 || um(m) != ref.Zero {
			c.Failf("zero mask is %v, length %d", m, m.Length())
		}
	})
	// net masks of every size and fill
	for n := 0; n <= 40; n++ {
		n := n
		c.Case(func() {
			for ones := 0; ones <= n*8; ones++ {
				b := net.CIDRMask(ones, n*8)
				if b == nil { // net only makes masks of 4 and 16 bytes
					b = make(net.IPMask, n)
					for i := 0; i < ones; i++ {
						b[i/8] |= 0x80 >> uint(i%8)
					}
				}
				m, err := ip.MaskFromNetIPMask(b)
				if (err == nil) != (n == W/8) {
					c.Failf("MaskFromNetIPMask of %d bytes gives %v, %v", n, m, err)
				}
				if err == nil && m.Length() != ones {
					c.Failf("MaskFromNetIPMask of %v gives %v", b, m)
				}
				c.Trans++
			}
			c.Traces++
			c.States++
		})
	}
	c.Case(func() {
		if m, err := ip.MaskFromNetIPMask(nil); err == nil {
			c.Failf("MaskFromNetIPMask(nil) gives %v", m)
		}
	})
}

func c23Combine(c *rt.Ctx) {
	as := boundaries(1)
	for l := 0; l <= W; l++ {
		l := l
		c.Case(func() {
			m := mkMask(l)
			for _, a := range as {
				p := ip.PrefixFromAddressMask(mkA(a), m)
				if ua(p.Address()) != a || p.Length() != l || p.Mask() != m {
					c.Failf("address %v and mask %v make %v", mkA(a), m, p)
				}
				c.Trans++
			}
			c.States++
			c.Traces++
		})
	}
}
