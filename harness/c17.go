package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// hosts an ID can have.
func hosts() []net.IP {
	out := []net.IP{
		nil, net.IPv4(127, 0, 0, 1), net.IPv4(0, 0, 0, 0), net.IPv4(255, 255, 255, 255), net.IPv4(1, 2, 3, 4), net.IPv4(192, 168, 0, 200),
		net.IPv4(1, 2, 3, 4).To4(), net.IPv4(10, 0, 0, 1).To4(), net.IPv4(0, 0, 0, 0).To4(), net.IPv4(255, 255, 255, 254).To4(),
		net.IPv6loopback, net.IPv6unspecified, net.ParseIP("fe80::1"), net.ParseIP("2001:db8::ff00:42:8329"),
		net.ParseIP("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"), net.ParseIP("::1:0:0"), net.ParseIP("64:ff9b::1.2.3.4"),
		net.ParseIP("fe80::a1:b2c3"), net.ParseIP("fd00::99"), net.ParseIP("ff02::fb"), net.ParseIP("::2"), net.ParseIP("2002:102:304::5"), net.ParseIP("100::7"),
		net.IPv4(169, 254, 7, 9), net.IPv4(224, 0, 0, 251), net.IPv4(127, 5, 6, 7), net.IPv4(100, 64, 0, 3), net.IPv4(240, 1, 1, 1).To4(),
		net.ParseIP("0102:0304:0506:0708:090a:0b0c:0d0e:0f10"),
	}
	for i := 0; i < 16; i++ {
		h := make(net.IP, 16)
		h[i] = 0x80
		out = append(out, h)
	}
	for i := 0; i < 4; i++ {
		h := make(net.IP, 4)
		h[i] = byte(0x11 * (i + 1))
		out = append(out, h)
	}
	return out
}

// canonicalAddr is the address of an ID by the documentation: host:port, the host left out if it is unspecified or loopback.
func canonicalAddr(h net.IP, p uint16) string {
	s := ""
	if len(h) > 0 && !h.IsLoopback() && !h.IsUnspecified() {
		s = h.String()
	}
	return net.JoinHostPort(s, strconv.Itoa(int(p)))
}

func pubs() []noise.PublicKey {
	var out []noise.PublicKey
	var k noise.PublicKey
	out = append(out, k)
	for i := range k {
		k = noise.PublicKey{}
		k[i] = byte(i + 1)
		out = append(out, k)
	}
	for i := range k {
		k[i] = byte(i * 7)
	}
	out = append(out, k)
	for i := range k {
		k[i] = 0xff
	}
	return append(out, k, key(procA).Public())
}

// changed compares what is decoded with what was encoded.
func changed(want, got noise.ID) string {
	switch {
	case got.ID != want.ID:
		return fmt.Sprintf("public key %v became %v", want.ID, got.ID)
	case !got.Host.Equal(want.Host) && !(len(want.Host) == 0 && got.Host.IsUnspecified()):
		return fmt.Sprintf("host %v became %v", want.Host, got.Host)
	case got.Port != want.Port:
		return fmt.Sprintf("port %d became %d", want.Port, got.Port)
	case got.Address != want.Address:
		return fmt.Sprintf("address %q became %q", want.Address, got.Address)
	}
	return ""
}

// layout is the documented encoding of an ID.
func layout(id noise.ID) []byte {
	b := append([]byte{}, id.ID[:]...)
	h := make([]byte, 16)
	if v4 := id.Host.To4(); v4 != nil {
		h[10], h[11] = 0xff, 0xff
		copy(h[12:], v4)
	} else {
		copy(h, id.Host)
	}
	b = append(b, h...)
	return append(b, byte(id.Port>>8), byte(id.Port))
}

func checkID(c *mc.Ctx, id noise.ID) {
	c.States++
	c.Validated++
	b := id.Marshal()
	if want := layout(id); !bytes.Equal(b, want) {
		c.Fail("an ID is encoded differently from its documented layout", fmt.Sprintf("%v is encoded as %x instead of %x", id, b, want))
		return
	}
	if len(b) != id.Size() || len(b) != 50 {
		c.Fail("an ID has the wrong size", fmt.Sprintf("%v has size %d and is encoded in %d bytes", id, id.Size(), len(b)))
	}
	d, err := noise.UnmarshalID(b)
	if err != nil {
		c.Fail("an encoded ID is not decoded", fmt.Sprintf("%x: %v", b, err))
		return
	}
	if s := changed(id, d); s != "" {
		c.Fail("an ID changes by being encoded and decoded", s)
	}
	if want := canonicalAddr(id.Host, id.Port); id.Address != want {
		c.Fail("an ID has the wrong address", fmt.Sprintf("%v:%d has address %q instead of %q", id.Host, id.Port, id.Address, want))
	}
	b[0]++ // the ID decoded is a copy
	b[40]++
	if s := changed(id, d); s != "" {
		c.Fail("an ID changes with the buffer it was decoded from", s)
	}
	// printing
	var v struct {
		PublicKey string `json:"public_key"`
		Address   string `json:"address"`
	}
	if err := json.Unmarshal([]byte(id.String()), &v); err != nil || v.PublicKey != hex.EncodeToString(id.ID[:]) || v.Address != id.Address {
		c.Fail("an ID is printed wrongly", id.String())
	}
}

// decoders under test: each tells whether it accepts b; it must not change b or depend on it afterwards.
var decoders = []struct {
	name string
	min  int // shortest layout
	dec  func(b []byte) (string, error)
	enc  func(b []byte) []byte // what a value decoded from b is encoded as
}{
	{"ID", 50, func(b []byte) (string, error) { v, err := noise.UnmarshalID(b); return fmt.Sprintf("%v", v), err },
		func(b []byte) []byte { v, _ := noise.UnmarshalID(b); return v.Marshal() }},
	{"lookup request", 32, func(b []byte) (string, error) {
		v, err := kademlia.UnmarshalFindNodeRequest(b)
		return fmt.Sprintf("%v", v), err
	}, func(b []byte) []byte { v, _ := kademlia.UnmarshalFindNodeRequest(b); return v.Marshal() }},
	{"lookup response", 1, func(b []byte) (string, error) {
		v, err := kademlia.UnmarshalFindNodeResponse(b)
		return fmt.Sprintf("%v", v), err
	}, func(b []byte) []byte { v, _ := kademlia.UnmarshalFindNodeResponse(b); return v.Marshal() }},
	{"ping", 0, func(b []byte) (string, error) { v, err := kademlia.UnmarshalPing(b); return fmt.Sprintf("%v", v), err },
		func(b []byte) []byte { return nil }},
	{"pong", 0, func(b []byte) (string, error) { v, err := kademlia.UnmarshalPong(b); return fmt.Sprintf("%v", v), err },
		func(b []byte) []byte { return nil }},
	{"gossip", 0, func(b []byte) (string, error) {
		v, err := gossip.UnmarshalMessage(b)
		return fmt.Sprintf("%x", []byte(v)), err
	}, func(b []byte) []byte { v, _ := gossip.UnmarshalMessage(b); return v.Marshal() }},
}

// need is how many bytes of b its layout requires.
func need(dec int, b []byte) int {
	if dec == 2 && len(b) > 0 {
		return 1 + 50*int(b[0])
	}
	return decoders[dec].min
}

// try runs decoder i on b, which it gets without anything behind it.
func try(c *mc.Ctx, i int, b []byte) {
	c.States++
	c.Transitions++
	c.Validated++
	d := decoders[i]
	in := append(make([]byte, 0, len(b)), b...)
	in = in[:len(b):len(b)]
	var err error
	panicked := func() (p interface{}) {
		defer func() { p = recover() }()
		_, err = d.dec(in)
		return
	}()
	show := fmt.Sprintf("%x", b)
	if len(show) > 200 {
		show = fmt.Sprintf("%d bytes %s...", len(b), show[:200])
	}
	n := need(i, b)
	switch {
	case panicked != nil:
		c.Fail("a decoder panics", fmt.Sprintf("decoding a %s from %s: %v", d.name, show, panicked))
	case !bytes.Equal(in, b):
		c.Fail("a decoder changes its input", fmt.Sprintf("decoding a %s from %s", d.name, show))
	case err == nil && len(b) < n:
		c.Fail("a decoder accepts too short an input", fmt.Sprintf("a %s of %d bytes instead of %d: %s", d.name, len(b), n, show))
	case err != nil && len(b) == n:
		c.Fail("a decoder rejects a well-formed input", fmt.Sprintf("a %s: %s: %v", d.name, show, err))
	case err == nil && i != 3 && i != 4:
		if e := d.enc(in); len(e) > len(b) || !bytes.Equal(e, b[:len(e)]) || len(e) != n && i < 3 {
			c.Fail("a decoded value is encoded differently", fmt.Sprintf("a %s from %s is encoded as %x", d.name, show, e))
		}
		if i == 1 && len(b) != 32 {
			c.Fail("a lookup request of the wrong length is accepted", show)
		}
	}
}

func init() {
	mc.AddCustom(mc.Custom{Prop: "C17", Name: "c17-ids", Doc: "every port with every host of a list of 37 forms and families, every key of a list with every host: layout, size, address, decoding",
		Run: func(c *mc.Ctx) {
			hs, ks := hosts(), pubs()
			for i, h := range hs {
				if i%c.Shards != c.Shard {
					continue
				}
				step := 1
				if !c.Thorough {
					step = 1 + i%2
				}
				for p := 0; p < 1<<16; p += step {
					checkID(c, noise.NewID(ks[(p+i)%len(ks)], h, uint16(p)))
				}
				for _, p := range []uint16{0, 1, 255, 256, 32767, 32768, 65535} {
					for _, k := range ks {
						checkID(c, noise.NewID(k, h, p))
					}
				}
				c.Sample(noise.NewID(ks[1], h, 80).String())
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C17", Name: "c17-strings", Doc: "every decoder on every string of up to 2 (thorough: 3) bytes, every string over four byte values up to length 8 (10), and lengths 0 to 1100 (14000) of constant and counting bytes under every first byte",
		Run: func(c *mc.Ctx) {
			n := 0
			mine := func() bool { n++; return n%c.Shards == c.Shard }
			full, alpha, lens := 2, 8, 1100
			if c.Thorough {
				full, alpha, lens = 3, 10, 14000
			}
			for l := 0; l <= full; l++ {
				b := make([]byte, l)
				for x := 0; x < 1<<(8*l); x++ {
					for j := range b {
						b[j] = byte(x >> (8 * j))
					}
					if mine() {
						for i := range decoders {
							try(c, i, b)
						}
					}
				}
			}
			letters := []byte{0, 1, 0x7f, 0xff}
			for l := full + 1; l <= alpha; l++ {
				b := make([]byte, l)
				for x := 0; x < 1<<(2*l); x++ {
					for j := range b {
						b[j] = letters[x>>(2*j)&3]
					}
					if mine() {
						for i := range decoders {
							try(c, i, b)
						}
					}
				}
			}
			firsts := []int{0, 1, 2, 3, 15, 16, 17, 20, 21, 127, 128, 200, 254, 255}
			for l := 1; l <= lens; l++ {
				if !mine() {
					continue
				}
				if l > 1100 && l%50 > 2 {
					continue
				}
				for _, f := range firsts {
					for _, fill := range []int{0, 0xff, -1} {
						b := make([]byte, l)
						for j := range b {
							if fill < 0 {
								b[j] = byte(j)
							} else {
								b[j] = byte(fill)
							}
						}
						b[0] = byte(f)
						for i := range decoders {
							try(c, i, b)
						}
					}
				}
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C17", Name: "c17-responses", Doc: "lookup responses of 0 to 255 results of all families: encoding, decoding, and every truncation; lookup requests for every single-byte key",
		Run: func(c *mc.Ctx) {
			hs, ks := hosts(), pubs()
			for n := c.Shard; n <= 255; n += c.Shards {
				var r kademlia.FindNodeResponse
				want := []byte{byte(n)}
				for i := 0; i < n; i++ {
					id := noise.NewID(ks[(i+n)%len(ks)], hs[(i*5+n)%len(hs)], uint16(i*257+n))
					r.Results = append(r.Results, id)
					want = append(want, layout(id)...)
				}
				b := r.Marshal()
				if !bytes.Equal(b, want) {
					c.Fail("a lookup response is encoded differently from its layout", fmt.Sprintf("%d results: %x instead of %x", n, b, want))
					continue
				}
				d, err := kademlia.UnmarshalFindNodeResponse(b)
				if err != nil || len(d.Results) != n {
					c.Fail("an encoded lookup response is not decoded", fmt.Sprintf("%d results, %d decoded: %v", n, len(d.Results), err))
					continue
				}
				for i := range d.Results {
					if s := changed(r.Results[i], d.Results[i]); s != "" {
						c.Fail("a result changes by being encoded and decoded", s)
					}
				}
				c.Validated++
				step := 1
				if n > 20 && !c.Thorough {
					step = 17
				}
				for l := 0; l < len(b); l += step {
					try(c, 2, b[:l])
				}
				try(c, 2, append(b, 1, 2, 3))
				for x := 0; x < 256; x++ {
					if x != n && (n < 20 || c.Thorough) {
						try(c, 2, append([]byte{byte(x)}, b[1:]...))
					}
				}
			}
			for i := c.Shard; i < 32*256; i += c.Shards {
				var q kademlia.FindNodeRequest
				q.Target[i/256] = byte(i)
				b := q.Marshal()
				d, err := kademlia.UnmarshalFindNodeRequest(b)
				if !bytes.Equal(b, q.Target[:]) || err != nil || d != q {
					c.Fail("a lookup request changes by being encoded and decoded", fmt.Sprintf("%x: %x %v", b, d.Target, err))
				}
				c.States++
				c.Validated++
			}
		}})
	mc.AddCustom(mc.Custom{Prop: "C17", Name: "c17-hex", Doc: "private keys, public keys and signatures with every value of every byte: printing, loading, JSON; every length of hexadecimal strings up to 300, and every character at every place",
		Run: func(c *mc.Ctx) {
			for i := c.Shard; i < 64*256; i += c.Shards {
				var k noise.PrivateKey
				var p noise.PublicKey
				var s noise.Signature
				k[i/256], s[i/256] = byte(i), byte(i)
				p[i/256%32] = byte(i)
				for _, v := range []struct {
					what string
					got  string
					raw  []byte
					js   json.Marshaler
				}{{"private key", k.String(), k[:], k}, {"public key", p.String(), p[:], p}, {"signature", s.String(), s[:], s}} {
					c.States++
					want := hex.EncodeToString(v.raw)
					if v.got != want {
						c.Fail("a key or signature is printed wrongly", fmt.Sprintf("%s %x as %s", v.what, v.raw, v.got))
					}
					if j, err := v.js.MarshalJSON(); err != nil || string(j) != `"`+want+`"` {
						c.Fail("a key or signature is printed wrongly as JSON", fmt.Sprintf("%s %x as %s: %v", v.what, v.raw, j, err))
					}
				}
				for _, h := range []string{k.String(), strings.ToUpper(k.String())} {
					if l, err := noise.LoadKeysFromHex(h); err != nil || l != k {
						c.Fail("a printed private key is not loaded", fmt.Sprintf("%s: %v %v", h, l, err))
					}
				}
				if u := noise.UnmarshalSignature(s[:]); u != s {
					c.Fail("a signature changes by being decoded", s.String())
				}
				c.Validated++
			}
			for n := c.Shard; n <= 300; n += c.Shards {
				for _, ch := range "0fg" {
					h := strings.Repeat(string(ch), n)
					_, err := noise.LoadKeysFromHex(h)
					c.States++
					if (err == nil) != (n == 128 && ch != 'g') {
						c.Fail("a private key of the wrong form is loaded, or one of the right form rejected", fmt.Sprintf("%d times %q: %v", n, ch, err))
					}
					if n%2 == 0 && n != 128 && ch != 'g' && !errors.Is(err, io.ErrUnexpectedEOF) {
						c.Fail("a private key of the wrong length is rejected without saying so", fmt.Sprintf("%d characters: %v", n, err))
					}
				}
			}
			for i := c.Shard; i < 128*256; i += c.Shards {
				h := []byte(strings.Repeat("a", 128))
				ch := byte(i)
				h[i/256] = ch
				k, err := noise.LoadKeysFromHex(string(h))
				c.States++
				digit := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'
				if (err == nil) != digit {
					c.Fail("a private key with a wrong character is loaded, or one without rejected", fmt.Sprintf("character %q: %v", ch, err))
				}
				if err != nil && k != noise.ZeroPrivateKey {
					c.Fail("a rejected private key is returned", k.String())
				}
			}
		}})
	mc.Add(mc.Scenario{
		Prop: "C17", Name: "c17-wire", Doc: "peers under IDs with hosts of all families and forms connect, exchange lookups and are found: each arrives as it is",
		Run: func() {
			defer vsched.QuietOff()
			vsched.QuietOn()
			hs := hosts()
			h := hs[vsched.Pick(len(hs))]
			ports := []uint16{0, 1, 80, 256, 65535}
			p := ports[vsched.Pick(len(ports))]
			dialled := vsched.Pick(2) == 1
			id := noise.NewID(key(procC).Public(), h, p)
			var w watch
			n := newNode(procB)
			k := kademlia.New()
			n.Bind(k.Protocol(), w.protocol())
			listen(procB, n)
			var q *rawPeer
			if dialled {
				l, addr := rawListen(procC)
				got := make(chan *rawPeer, 1)
				rawAccept(procC, l, func(i int, p *rawPeer) {
					must(p.shake(1, id, key(procC)))
					got <- p
				})
				connect(procB, n, addr)
				q = <-got
			} else {
				var err error
				q, err = rawDial(n.Addr())
				must(err)
				must(q.shake(1, id, key(procC)))
			}
			vsched.Quiesce()
			if len(w.ids) != 1 {
				vsched.Fail("%d peers connected", len(w.ids))
			}
			if s := changed(id, w.ids[0]); s != "" {
				vsched.Fail("the ID of a peer changes on the wire: %s", s)
			}
			// another peer asks for the first one
			x := dialShake(n.Addr(), 5, procD, 9)
			must(x.send(6, typed(opFindReq, x.id.ID[:])))
			no, data, err := x.recv()
			if err != nil || no != 6 || len(data) < 3 || !bytes.Equal(data[:2], []byte{0, opFindRes}) {
				vsched.Fail("lookup: %d %x %v", no, data, err)
			}
			r, err := kademlia.UnmarshalFindNodeResponse(data[2:])
			must(err)
			found := false
			for _, got := range r.Results {
				if got.ID == id.ID {
					found = true
					if s := changed(id, got); s != "" {
						vsched.Fail("the ID of a peer changes in a lookup response: %s", s)
					}
				}
			}
			if !found || !bytes.Equal(data[2:], r.Marshal()) {
				vsched.Fail("lookup response %v", r)
			}
		},
		Quick: mc.Bounds{Cost: 0}, Thorough: mc.Bounds{Cost: 0, Policies: []int{0, 1}}, Native: 6,
	})
}
