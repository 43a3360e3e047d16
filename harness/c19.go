package main

import (
	"fmt"
	"net"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// an advert is a public address as a user can configure it.
type advert struct {
	addr string
	host net.IP // of the identity it stands for
	port uint16
	how  int
}

const (
	adFine   = iota // an address there is an identity for
	adLocal         // one that means this machine: refusing it is fine
	adBroken        // none at all
)

func adverts() []advert {
	return []advert{
		{"", nil, 0, adFine},
		{"10.1.2.3:9100", net.IPv4(10, 1, 2, 3), 9100, adFine},
		{"10.9.9.9:65535", net.IPv4(10, 9, 9, 9), 65535, adFine},
		{"[2001:db8::5]:9100", net.ParseIP("2001:db8::5"), 9100, adFine},
		{"[2001:db8:0:0:0:0:0:5]:09100", net.ParseIP("2001:db8::5"), 9100, adFine},
		{"[::ffff:10.1.2.3]:9100", net.IPv4(10, 1, 2, 3), 9100, adFine},
		{"10.1.2.3:http", net.IPv4(10, 1, 2, 3), 80, adFine},
		{"127.0.0.1:9100", nil, 9100, adLocal},
		{":9100", nil, 9100, adLocal},
		{"0.0.0.0:9100", nil, 9100, adLocal},
		{"[::]:9100", nil, 9100, adLocal},
		{"[::1]:9100", nil, 9100, adLocal},
		{"localhost:9100", nil, 9100, adLocal},
		{"10.1.2.3", nil, 0, adBroken},
		{"10.1.2.3:65536", nil, 0, adBroken},
		{"10.1.2.3:-1", nil, 0, adBroken},
		{"10.1.2.3:x", nil, 0, adBroken},
		{"no.such.host:9100", nil, 0, adBroken},
		{"[10.1.2.3", nil, 0, adBroken},
		{"2001:db8::5:9100", nil, 0, adBroken},
		{":", nil, 0, adLocal},
		{"x", nil, 0, adBroken},
	}
}

func binds() []net.IP {
	return []net.IP{nil, net.IPv4(127, 0, 0, 1), net.IPv4(10, 1, 2, 3), net.IPv4(10, 1, 2, 3).To4(), net.ParseIP("2001:db8::5"),
		net.IPv4zero, net.IPv6unspecified, net.IPv6loopback, net.IPv4(127, 0, 0, 2)}
}

func sameIdentity(want, got noise.ID, who string) {
	if s := changed(want, got); s != "" {
		vsched.Fail("%s sees another identity than the node reports: %s (%v instead of %v)", who, s, got, want)
	}
}

// configured is a node of process B under configuration (host, port, ad), the address given as such or as an ID.
func configured(w *watch, host net.IP, bindPort uint16, ad advert, asID, keyed bool) *noise.Node {
	opts := []noise.NodeOption{noise.WithNodeBindHost(host), noise.WithNodeBindPort(bindPort)}
	if !keyed {
		opts = append(opts, noise.WithNodePrivateKey(noise.PrivateKey{}))
	}
	if ad.addr != "" {
		if asID {
			// The identity of another node with this address: the key that counts is the node's own.
			opts = append(opts, noise.WithNodeID(noise.ID{ID: key(procD).Public(), Host: ad.host, Port: ad.port, Address: ad.addr}))
		} else {
			opts = append(opts, noise.WithNodeAddress(ad.addr))
		}
	}
	n := newNode(procB, opts...)
	n.Bind(w.protocol())
	n.Handle(w.handle)
	return n
}

func init() {
	ads, bs := adverts(), binds()
	mc.Add(mc.Scenario{
		Prop: "C19", Name: "c19-configurations",
		Doc: fmt.Sprintf("%d bind hosts x fixed or free port x %d public addresses, given as address or as ID, with a key or without: what Listen says, what the node reports, and what peers see that it connects to or that connect to it", len(bs), len(ads)),
		Run: func() {
			host, ad := bs[vsched.Pick(len(bs))], ads[vsched.Pick(len(ads))]
			bindPort := []uint16{0, 9100}[vsched.Pick(2)]
			asID := ad.addr != "" && vsched.Pick(2) == 1
			keyed := vsched.Pick(2) == 1
			var w, wa watch
			n := configured(&w, host, bindPort, ad, asID, keyed)
			var err error
			in(procB, func() { err = n.Listen() })
			if err != nil {
				if ad.how == adFine {
					vsched.Fail("Listen refuses bind host %v, port %d, public address %q: %v", host, bindPort, ad.addr, err)
				}
				if !vsched.Native {
					released(procB, 0, 0, fmt.Sprintf("after Listen refused public address %q", ad.addr))
				}
				vsched.Fact("refused")
				// A node that was refused leaves its port to others.
				if bindPort != 0 {
					l, err := net.Listen("tcp", ":9100")
					if err != nil {
						vsched.Fail("after Listen refused public address %q its port is still taken: %v", ad.addr, err)
					}
					l.Close()
				}
				in(procB, func() { n.Close() })
				return
			}
			if ad.how == adBroken {
				vsched.Fail("Listen accepts public address %q, for which the node reports %v", ad.addr, n.ID())
			}
			vsched.Fact("accepted")
			id := n.ID()
			ls := vnet.Listening(procB)
			if len(ls) != 1 {
				vsched.Fail("the node listens on %v", ls)
			}
			bound := ls[0]
			if bindPort != 0 && bound.Port != int(bindPort) {
				vsched.Fail("bound to port %d instead of %d", bound.Port, bindPort)
			}
			var want noise.ID
			if ad.addr == "" || ad.how == adLocal && ad.port == 0 {
				want = noise.ID{Host: bound.IP, Port: uint16(bound.Port)}
			} else {
				want = noise.ID{Host: ad.host, Port: ad.port}
				if ad.how == adLocal {
					want.Host = id.Host
				}
			}
			want.Address = canonicalAddr(want.Host, want.Port)
			if keyed {
				want.ID = key(procB).Public()
			} else {
				want.ID = id.ID
				if id.ID == noise.ZeroPublicKey || id.ID == key(procD).Public() {
					vsched.Fail("the node reports key %v", id.ID)
				}
			}
			if s := changed(want, id); s != "" {
				vsched.Fail("bind host %v, port %d, public address %q: wrong identity: %s", host, bindPort, ad.addr, s)
			}
			if msg := []byte("signed"); !id.ID.Verify(msg, n.Sign(msg)) {
				vsched.Fail("the node does not sign with the key it reports")
			}
			if want.ID != id.ID {
				vsched.Fail("the node reports another key than its own")
			}
			// How to reach it: at the address it reports, if that is one of this machine.
			addrs := []string{net.JoinHostPort(dialHost(bound.IP), fmt.Sprint(bound.Port))}
			if int(id.Port) == bound.Port && (ad.addr == "" || bound.IP.IsUnspecified() || bound.IP.Equal(id.Host)) {
				addrs = append(addrs, id.Address)
				if n.Addr() != "" && ad.how == adFine {
					addrs = append(addrs, n.Addr())
				}
			}
			if ad.addr == "" && len(addrs) < 2 {
				vsched.Fail("a node bound to %v reports address %q", bound, id.Address)
			}
			if ad.addr == "" && n.Addr() != id.Address {
				vsched.Fail("a node whose ID has address %q says %q is its address", id.Address, n.Addr())
			}
			a := watched(procA, &wa)
			join(spawn(procA, func() {
				for _, addr := range addrs {
					c, err := a.Ping(bg(), addr)
					if err != nil {
						vsched.Fail("the node with address %q, bound to %v, cannot be reached at %q: %v", id.Address, bound, addr, err)
					}
					sameIdentity(id, c.ID(), "a node that connected to it")
					if data, err := a.Request(bg(), addr, []byte("q")); err != nil || string(data) != "re:q" {
						vsched.Fail("request to %q: %q %v", addr, data, err)
					}
				}
				p, err := rawDial(addrs[0])
				must(err)
				must(p.shake(9, rawID(procC, 5), key(procC)))
				sameIdentity(id, p.id, "a peer that connected to it")
				p.conn.Close()
			}))
			vsched.Quiesce()
			for _, got := range w.handledBy {
				if got.Address == a.ID().Address {
					sameIdentity(a.ID(), got, "a handler")
				}
			}
			closeClients(procA, a)
			vsched.Quiesce()
			wa.ids = nil
			// It connects to others.
			join(spawn(procB, func() {
				c, err := n.Ping(bg(), a.Addr())
				if err != nil {
					vsched.Fail("the node cannot connect to others: %v", err)
				}
				sameIdentity(a.ID(), c.ID(), "the node")
				if _, err := n.Request(bg(), a.Addr(), []byte("q")); err != nil {
					vsched.Fail("request: %v", err)
				}
			}))
			vsched.Quiesce()
			for _, c := range a.Inbound() {
				sameIdentity(id, c.ID(), "a node it connected to")
			}
			if len(wa.ids) != 1 {
				vsched.Fail("%d connections of the node were reported", len(wa.ids))
			}
			sameIdentity(id, wa.ids[0], "the connect hook of a node it connected to")
			sameIdentity(id, wa.handledBy[len(wa.handledBy)-1], "a handler of a node it connected to")
			if s := changed(id, n.ID()); s != "" {
				vsched.Fail("the node's identity changed: %s", s)
			}
		},
		StmtsThorough: true,
		Quick:         mc.Bounds{Cost: 1, Policies: []int{0}, Weight: 3}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}, Weight: 4},
	})
	mc.Add(mc.Scenario{
		Prop: "C19", Name: "c19-several", Doc: "three nodes with different kinds of identity connect to each other at once, by the addresses they report, and see each other's identities",
		Run: func() {
			var ws [3]watch
			var ns [3]*noise.Node
			kind := vsched.Pick(3)
			vsched.Quiet(func() {
				for i := range ns {
					g := procA + i
					opts := []noise.NodeOption{noise.WithNodeBindPort(uint16(9200 + i))}
					switch (i + kind) % 3 {
					case 0:
						opts = append(opts, noise.WithNodeBindHost(nil))
					case 1:
						opts = append(opts, noise.WithNodeBindHost(net.IPv4(10, 1, 2, byte(i))))
					case 2:
						opts = append(opts, noise.WithNodeBindHost(nil), noise.WithNodeAddress(fmt.Sprintf("[2001:db8::%d]:%d", i, 9200+i)))
					}
					ns[i] = watched(g, &ws[i], opts...)
				}
			})
			var ts []chan struct{}
			for i := range ns {
				i := i
				ts = append(ts, spawn(procA+i, func() {
					j := (i + 1) % 3
					c, err := ns[i].Ping(bg(), ns[j].ID().Address)
					if err != nil {
						vsched.Fail("node %d does not reach node %d at %q: %v", i, j, ns[j].ID().Address, err)
					}
					sameIdentity(ns[j].ID(), c.ID(), "the dialling node")
				}))
			}
			join(ts...)
			vsched.Settle()
			for i := range ns {
				j := (i + 2) % 3
				in := ns[i].Inbound()
				if len(in) != 1 {
					vsched.Fail("node %d has %d inbound connections", i, len(in))
				}
				sameIdentity(ns[j].ID(), in[0].ID(), "the accepting node")
				if len(ws[i].ids) != 2 {
					vsched.Fail("node %d reported %d connections", i, len(ws[i].ids))
				}
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}},
	})
	mc.Add(mc.Scenario{
		Prop: "C19", Name: "c19-refused", Doc: "a node whose port is taken is refused by Listen, releases everything, and another one can take its place",
		Run: func() {
			var w watch
			l, err := net.Listen("tcp", ":9100")
			must(err)
			n := configured(&w, nil, 9100, advert{}, false, true)
			in(procB, func() { err = n.Listen() })
			if err == nil {
				vsched.Fail("Listen succeeds on a port that is taken")
			}
			released(procB, 0, 0, "after Listen failed")
			in(procB, func() { n.Close() })
			l.Close()
			m := node(procC, echo, noise.WithNodeBindPort(9100), noise.WithNodeBindHost(nil))
			a := node(procA, nil)
			c, err := a.Ping(bg(), m.Addr())
			if err != nil {
				vsched.Fail("ping: %v", err)
			}
			sameIdentity(m.ID(), c.ID(), "a peer")
			if err := m.Listen(); err == nil {
				vsched.Fail("Listen succeeds twice")
			}
			if data, err := a.Request(bg(), m.Addr(), []byte("q")); err != nil || string(data) != "re:q" {
				vsched.Fail("after a second Listen, which was refused, the node does not serve: %v", err)
			}
		},
		Quick: mc.Bounds{Cost: 2, Policies: []int{0}}, Thorough: mc.Bounds{Cost: 3, Policies: []int{0, 1}}, Native: 1,
	})
}

// dialHost is a host to dial for a listener bound to ip.
func dialHost(ip net.IP) string {
	if ip.IsUnspecified() {
		return "127.0.0.1"
	}
	return ip.String()
}
