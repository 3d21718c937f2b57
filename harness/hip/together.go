package hip

import (
	"fmt"
	"net"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/zzverif/par"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// valuesTogether: every function of the package in two threads at the same time,
// with values of either family.
func valuesTogether(c *rt.Ctx) {
	texts := [2][3]string{
		{"85.86.87.88", "170.10.20.30", "1.2.3.4"},
		{"2001:db8::1:2", "::ffff:10.20.30.40", "5555:6666:7777:8888:9999:aaaa:bbbb:cccc"},
	}
	lengths := [3]int{19, 31, 5}
	show := func(x ...interface{}) string { return fmt.Sprintf("%T %v", x[0], x) }
	var uses []par.Use
	for f := range texts {
		f := f
		add := func(name string, fn func(text, prefix string, d int) string) {
			uses = append(uses, par.Use{Name: name + " of " + []string{"ipv4", "ipv6"}[f], F: func(d int) string {
				return fn(texts[f][d], fmt.Sprintf("%s/%d", texts[f][d], lengths[d]), d)
			}})
		}
		bits := []int{32, 128}[f]
		netIP := func(text string) net.IP {
			x := net.ParseIP(text)
			if f == 0 {
				x = x.To4()
			}
			return x
		}
		address := func(d int) ip.Address { x, _ := ip.AddressFromNetIP(netIP(texts[f][d])); return x }
		mask := func(d int) ip.Mask { x, _ := ip.MaskFromNetIPMask(net.CIDRMask(lengths[d], bits)); return x }
		prefix := func(d int) ip.Prefix { x, _ := ip.PrefixFromAddressMask(address(d), mask(d)); return x }
		add("AddressFromString", func(text, _ string, _ int) string { x, err := ip.AddressFromString(text); return show(x, err) })
		add("AddressFromString that fails", func(text, _ string, _ int) string { x, err := ip.AddressFromString(text + "x"); return show(x, err) })
		add("AddressFromNetIP", func(text, _ string, _ int) string { x, err := ip.AddressFromNetIP(netIP(text)); return show(x, err) })
		add("PrefixFromAddress", func(_, _ string, d int) string { return show(ip.PrefixFromAddress(address(d))) })
		add("PrefixFromString", func(_, text string, _ int) string { x, err := ip.PrefixFromString(text); return show(x, err) })
		add("PrefixFromString that fails", func(_, text string, _ int) string { x, err := ip.PrefixFromString(text + "99"); return show(x, err) })
		add("PrefixFromNetIPNet", func(text, _ string, d int) string {
			x, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: netIP(text), Mask: net.CIDRMask(lengths[d], bits)})
			return show(x, err)
		})
		add("PrefixFromAddressMask", func(_, _ string, d int) string {
			x, err := ip.PrefixFromAddressMask(address(d), mask(d))
			return show(x, err)
		})
		add("AddressFromPrefix", func(_, _ string, d int) string { return show(ip.AddressFromPrefix(prefix(d))) })
		add("MaskFromPrefix", func(_, _ string, d int) string { return show(ip.MaskFromPrefix(prefix(d))) })
		add("MaskFromNetIPMask", func(_, _ string, d int) string { return show(mask(d)) })
		add("ranges", func(_, _ string, d int) string {
			r, empty, err := ip.RangeFromAddresses(address(d), address((d+1)%3))
			if err != nil {
				return show(r, empty, err)
			}
			return show(r, empty, err, ip.FirstFromRange(r), ip.LastFromRange(r))
		})
		add("RangeFromPrefix", func(_, _ string, d int) string { return show(ip.RangeFromPrefix(prefix(d))) })
		add("text and net values", func(_, _ string, d int) string {
			return show(address(d).String(), prefix(d).String(), mask(d).String(), address(d).ToNetIP(), prefix(d).ToNetIPNet(), mask(d).Length())
		})
	}
	bound := 1
	if c.Thorough {
		bound = 2
	}
	par.Pairs(c, bound, 2, uses)
}
