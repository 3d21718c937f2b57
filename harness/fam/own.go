package fam

import (
	ip "gopkg.in/addrs.v1/FAM"
)

// Types of the caller that satisfy PrefixI or SetI.

// ownPrefix embeds a prefix under another name: it is a PrefixI and a SetI.
type ownPrefix struct {
	network
	tag string
}

type network struct{ ip.PrefixI }

func (o network) Set() ip.Set { return o.PrefixI.Prefix().Set() }

func mkOwn(p ip.Prefix) ownPrefix { return ownPrefix{network{p}, "x"} }

// ownSet is a SetI by a method of its own.
type ownSet struct{ make func() ip.Set }

func (o ownSet) Set() ip.Set { return o.make() }

// ownKey is a PrefixI by a method of its own.
type ownKey struct{ make func() ip.Prefix }

func (o *ownKey) Prefix() ip.Prefix { return o.make() }

var (
	_ ip.PrefixI = ownPrefix{}
	_ ip.SetI    = ownPrefix{}
	_ ip.PrefixI = (*ownKey)(nil)
	_ ip.SetI    = ownSet{}
)
