package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// Message types of all kinds.
type (
	mStruct struct{ s string }
	mBytes  []byte
	mString string
	mInt    uint16
	mPtr    struct{ s string } // registered as a pointer
	mEmpty  struct{}
	mDeep   struct{ a, b uint8 }
	mNil    []byte             // marshals to nil
	mValPtr struct{ s string } // registered as a value, with its Marshal on the value: pointers to it are encoded, too
)

func (m mStruct) Marshal() []byte { return []byte(m.s) }
func (m mBytes) Marshal() []byte  { return m }
func (m mString) Marshal() []byte { return []byte(m) }
func (m mInt) Marshal() []byte    { return []byte{byte(m >> 8), byte(m)} }
func (m *mPtr) Marshal() []byte   { return []byte(m.s) }
func (m mEmpty) Marshal() []byte  { return nil }
func (m mDeep) Marshal() []byte   { return []byte{m.a, m.b} }
func (m mNil) Marshal() []byte    { return nil }
func (m mValPtr) Marshal() []byte { return []byte(m.s) }

var errDecode = errors.New("decoder's error")

// kind is one of these types, with values and a decoder that records what it gets.
type kind struct {
	name   string
	proto  noise.Serializable
	values []noise.Serializable
	plain  func(v noise.Serializable) []byte
	dec    func(got *[]byte) interface{} // records its input and rejects what starts with 0xee
	wrong  []interface{}                 // decoders of the wrong signature
}

func reject(b []byte) error {
	if len(b) > 0 && b[0] == 0xee {
		return errDecode
	}
	return nil
}

func kinds() []*kind {
	mk := func(name string, proto noise.Serializable, dec func(got *[]byte) interface{}, values ...noise.Serializable) *kind {
		t := reflect.TypeOf(proto)
		bytesT, errT := reflect.TypeOf([]byte(nil)), reflect.TypeOf((*error)(nil)).Elem()
		fn := func(in, out []reflect.Type, variadic bool) interface{} {
			return reflect.Zero(reflect.FuncOf(in, out, variadic)).Interface()
		}
		other := reflect.TypeOf("")
		return &kind{name: name, proto: proto, values: values, dec: dec, wrong: []interface{}{
			fn([]reflect.Type{other}, []reflect.Type{t, errT}, false),
			fn([]reflect.Type{bytesT}, []reflect.Type{t}, false),
			fn([]reflect.Type{bytesT}, []reflect.Type{errT, t}, false),
			fn([]reflect.Type{bytesT}, []reflect.Type{reflect.PtrTo(t), errT}, false),
			fn([]reflect.Type{bytesT}, []reflect.Type{t, errT, errT}, false),
			fn([]reflect.Type{bytesT, bytesT}, []reflect.Type{t, errT}, false),
			fn([]reflect.Type{bytesT}, []reflect.Type{t, errT}, true),
			fn([]reflect.Type{bytesT}, []reflect.Type{reflect.TypeOf((*noise.Serializable)(nil)).Elem(), errT}, false),
			fn(nil, []reflect.Type{t, errT}, false),
			"not a function", 17,
		}}
	}
	return []*kind{
		mk("struct", mStruct{}, func(g *[]byte) interface{} {
			return func(b []byte) (mStruct, error) { *g = b; return mStruct{string(b)}, reject(b) }
		}, mStruct{}, mStruct{"x"}, mStruct{"\x00\x00"}, mStruct{strings.Repeat("long", 300)}),
		mk("bytes", mBytes{}, func(g *[]byte) interface{} {
			return func(b []byte) (mBytes, error) { *g = b; return append(mBytes{}, b...), reject(b) }
		}, mBytes{}, mBytes{0}, mBytes{0, 1, 2, 255}),
		mk("string", mString(""), func(g *[]byte) interface{} {
			return func(b []byte) (mString, error) { *g = b; return mString(b), reject(b) }
		}, mString(""), mString("s"), mString("\x00\x01")),
		mk("int", mInt(0), func(g *[]byte) interface{} {
			return func(b []byte) (mInt, error) {
				*g = b
				if len(b) != 2 {
					return 0, errDecode
				}
				return mInt(b[0])<<8 | mInt(b[1]), reject(b)
			}
		}, mInt(0), mInt(1), mInt(0xffff)),
		mk("pointer", &mPtr{}, func(g *[]byte) interface{} {
			return func(b []byte) (*mPtr, error) { *g = b; return &mPtr{string(b)}, reject(b) }
		}, &mPtr{}, &mPtr{"p"}),
		mk("empty", mEmpty{}, func(g *[]byte) interface{} {
			return func(b []byte) (mEmpty, error) { *g = b; return mEmpty{}, reject(b) }
		}, mEmpty{}),
		mk("deep", mDeep{}, func(g *[]byte) interface{} {
			return func(b []byte) (mDeep, error) {
				*g = b
				if len(b) < 2 {
					return mDeep{}, errDecode
				}
				return mDeep{b[0], b[1]}, reject(b)
			}
		}, mDeep{}, mDeep{1, 2}),
		mk("value", mValPtr{}, func(g *[]byte) interface{} {
			return func(b []byte) (mValPtr, error) { *g = b; return mValPtr{string(b)}, reject(b) }
		}, mValPtr{}, mValPtr{"v"}),
	}
}

// registry is the reference.
type registry struct {
	order []int // kinds in registration order
}

func (r *registry) code(k int) int {
	for i, x := range r.order {
		if x == k {
			return i
		}
	}
	return -1
}

func recovered(fn func()) (p interface{}) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// coded is a node's codec under test.
type coded struct {
	n   *noise.Node
	ks  []*kind
	r   registry
	got []*[]byte
}

func newCoded() *coded {
	c := &coded{ks: kinds()}
	n, err := noise.NewNode(noise.WithNodePrivateKey(key(procA)))
	if err != nil {
		panic(err)
	}
	c.n = n
	for range c.ks {
		c.got = append(c.got, new([]byte))
	}
	return c
}

// step applies operation op, and returns what is wrong.
func (c *coded) step(op int) string {
	n := len(c.ks)
	k := op % n
	switch op / n {
	case 0: // register
		var code uint16
		p := recovered(func() { code = c.n.RegisterMessage(c.ks[k].proto, c.ks[k].dec(c.got[k])) })
		had := c.r.code(k)
		if had >= 0 {
			if p == nil {
				return fmt.Sprintf("registering type %s twice does not panic", c.ks[k].name)
			}
			return ""
		}
		if p != nil {
			return fmt.Sprintf("registering type %s panics: %v", c.ks[k].name, p)
		}
		if int(code) != len(c.r.order) {
			return fmt.Sprintf("type %s, the %d. registered, gets opcode %d", c.ks[k].name, len(c.r.order)+1, code)
		}
		c.r.order = append(c.r.order, k)
	case 1: // register with wrong decoders
		for i, w := range c.ks[k].wrong {
			if recovered(func() { c.n.RegisterMessage(c.ks[k].proto, w) }) == nil {
				return fmt.Sprintf("registering type %s with a decoder of the wrong signature (%d: %T) does not panic", c.ks[k].name, i, w)
			}
		}
	}
	return ""
}

// check compares the codec with the reference, completely.
func (c *coded) check(bodies [][]byte) string {
	for k, kd := range c.ks {
		code := c.r.code(k)
		for _, v := range kd.values {
			vs := []noise.Serializable{v}
			if x, ok := v.(mValPtr); ok {
				vs = append(vs, &x)
			}
			for _, v := range vs {
				b, err := c.n.EncodeMessage(v)
				if code < 0 {
					if err == nil {
						return fmt.Sprintf("a message of the unregistered type %s is encoded as %x", kd.name, b)
					}
					continue
				}
				want := append([]byte{byte(code >> 8), byte(code)}, v.Marshal()...)
				if err != nil || !bytes.Equal(b, want) {
					return fmt.Sprintf("a message of type %s is encoded as %x instead of %x: %v", kd.name, b, want, err)
				}
				d, err := c.n.DecodeMessage(b)
				if err != nil {
					return fmt.Sprintf("an encoded message of type %s is not decoded: %v", kd.name, err)
				}
				orig := v
				if p, ok := v.(*mValPtr); ok {
					orig = *p
				}
				if !reflect.DeepEqual(d, orig) {
					return fmt.Sprintf("message %#v of type %s is decoded as %#v", orig, kd.name, d)
				}
				if !bytes.Equal(*c.got[k], v.Marshal()) {
					return fmt.Sprintf("the decoder of type %s is passed %x instead of %x", kd.name, *c.got[k], v.Marshal())
				}
			}
		}
	}
	if b, err := c.n.EncodeMessage(nil); err == nil {
		return fmt.Sprintf("nil is encoded as %x", b)
	}
	for _, b := range [][]byte{nil, {}, {0}, {255}} {
		if d, err := c.n.DecodeMessage(b); !errors.Is(err, io.ErrUnexpectedEOF) && (err == nil || d != nil) {
			return fmt.Sprintf("%x is decoded as %#v, error %v", b, d, err)
		}
	}
	for _, op := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 257, 0x7fff, 0x8000, 0xffff} {
		for _, body := range bodies {
			for _, g := range c.got {
				*g = []byte("not called")
			}
			d, err := c.n.DecodeMessage(append([]byte{byte(op >> 8), byte(op)}, body...))
			if op >= len(c.r.order) {
				if err == nil {
					return fmt.Sprintf("unknown opcode %d is decoded as %#v", op, d)
				}
				for k, g := range c.got {
					if string(*g) != "not called" {
						return fmt.Sprintf("unknown opcode %d is given to the decoder of type %s", op, c.ks[k].name)
					}
				}
				continue
			}
			k := c.r.order[op]
			if !bytes.Equal(*c.got[k], body) {
				return fmt.Sprintf("the decoder of opcode %d is passed %q instead of %x", op, *c.got[k], body)
			}
			for j, g := range c.got {
				if j != k && string(*g) != "not called" {
					return fmt.Sprintf("opcode %d of type %s is given to the decoder of type %s", op, c.ks[k].name, c.ks[j].name)
				}
			}
			out := reflect.ValueOf(c.ks[k].dec(new([]byte))).Call([]reflect.Value{reflect.ValueOf(append([]byte{}, body...))})
			if bad := !out[1].IsNil(); bad != (err != nil) || bad && err != errDecode {
				return fmt.Sprintf("opcode %d with %x gives the error %v", op, body, err)
			}
			if err == nil && !reflect.DeepEqual(d, out[0].Interface()) {
				return fmt.Sprintf("opcode %d with %x is decoded as %#v", op, body, d)
			}
		}
	}
	return ""
}

func init() {
	mc.AddCustom(mc.Custom{Prop: "C18", Name: "c18-sequences", Doc: "all sequences of registrations, repeated and wrong ones among them, of up to 4 (thorough: 5) over 8 kinds of types; after each, every value, every opcode near and far, and short input are coded and compared with a reference",
		Run: func(c *mc.Ctx) {
			depth := 4
			if c.Thorough {
				depth = 5
			}
			n := 16 // operations: register one of 8, register one of 8 wrongly
			bodies := [][]byte{nil, {0}, {0xee}, {1, 2}, {0xee, 1, 2}}
			var seq []int
			idx := 0
			var rec func()
			rec = func() {
				if len(seq) == 2 || len(seq) < 2 && len(seq) == depth {
					idx++
				}
				if len(seq) < 2 && c.Shard == 0 || len(seq) >= 2 && idx%c.Shards == c.Shard {
					x := newCoded()
					bad := ""
					for _, op := range seq {
						if bad = x.step(op); bad != "" {
							break
						}
					}
					if bad == "" {
						bad = x.check(bodies)
					}
					c.States++
					c.Validated++
					c.Transitions += int64(len(seq))
					if bad != "" {
						c.Fail(generalise(bad), fmt.Sprintf("after operations %v: %s", seq, bad))
						return
					}
				}
				if len(seq) == depth || len(seq) >= 2 && idx%c.Shards != c.Shard {
					return
				}
				for op := 0; op < n; op++ {
					// a wrong registration changes nothing, and is of no interest twice in a row
					if op >= 8 && len(seq) > 0 && seq[len(seq)-1] >= 8 {
						continue
					}
					seq = append(seq, op)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
			c.Sample(fmt.Sprintf("depth %d", depth))
		}})
	mc.AddCustom(mc.Custom{Prop: "C18", Name: "c18-full", Doc: "65536 types are registered: each gets the next opcode and is coded under it, and one more is refused and changes nothing",
		Run: func(c *mc.Ctx) {
			if c.Shard != 0 {
				return
			}
			n, err := noise.NewNode(noise.WithNodePrivateKey(key(procA)))
			if err != nil {
				panic(err)
			}
			bytesT, errT := reflect.TypeOf([]byte(nil)), reflect.TypeOf((*error)(nil)).Elem()
			var values []noise.Serializable
			ser := reflect.TypeOf((*noise.Serializable)(nil)).Elem()
			for i := 0; i <= 1<<16; i++ {
				// a struct that embeds a message, and an array that makes it a type of its own
				t := reflect.StructOf([]reflect.StructField{
					{Name: "MEmb", Type: reflect.TypeOf(MEmb{}), Anonymous: true},
					{Name: "N", Type: reflect.ArrayOf(i, reflect.TypeOf(struct{}{}))},
				})
				if !t.Implements(ser) {
					c.Notes = append(c.Notes, "cannot make types at run time")
					return
				}
				v := reflect.New(t).Elem()
				v.Field(0).Field(0).SetInt(int64(i))
				s := v.Interface().(noise.Serializable)
				de := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{bytesT}, []reflect.Type{t, errT}, false), func(in []reflect.Value) []reflect.Value {
					v := reflect.New(t).Elem()
					b := in[0].Bytes()
					v.Field(0).Field(0).SetInt(int64(b[0])<<16 | int64(b[1])<<8 | int64(b[2]))
					return []reflect.Value{v, reflect.Zero(errT)}
				}).Interface()
				var code uint16
				p := recovered(func() { code = n.RegisterMessage(s, de) })
				c.Transitions++
				if i == 1<<16 {
					if p == nil {
						c.Fail("a type is registered though all opcodes are taken", fmt.Sprint("opcode ", code))
					}
					break
				}
				if p != nil || int(code) != i {
					c.Fail("types are not numbered in registration order", fmt.Sprintf("type %d gets opcode %d: %v", i, code, p))
					return
				}
				values = append(values, s)
			}
			for i, s := range values {
				c.States++
				c.Validated++
				b, err := n.EncodeMessage(s)
				if err != nil || len(b) < 2 || int(b[0])<<8|int(b[1]) != i {
					c.Fail("a type is encoded under another opcode", fmt.Sprintf("type %d: %x %v", i, b, err))
					return
				}
				d, err := n.DecodeMessage(b)
				if err != nil || d != s {
					c.Fail("a type is decoded as another one", fmt.Sprintf("type %d: %#v %v", i, d, err))
					return
				}
			}
		}})
	mc.Add(mc.Scenario{
		Prop: "C18", Name: "c18-concurrent", Doc: "two or three threads register types, the same ones and different ones, and encode and decode messages of types registered before and at that time",
		Run: func() {
			k := 2 + vsched.Pick(2)
			plan := vsched.Pick(3)
			c := newCoded()
			if s := c.step(0); s != "" { // the struct type, opcode 0
				vsched.Fail("%s", s)
			}
			type res struct {
				kind int
				code uint16
				ok   bool
			}
			var rs []res
			reg := func(kd int) {
				var code uint16
				p := recovered(func() { code = c.n.RegisterMessage(c.ks[kd].proto, c.ks[kd].dec(new([]byte))) })
				u := guard()
				vsched.Mark()
				rs = append(rs, res{kd, code, p == nil})
				u()
				if p == nil {
					// its messages can be coded from now on
					v := c.ks[kd].values[0]
					b, err := c.n.EncodeMessage(v)
					if err != nil || int(b[0])<<8|int(b[1]) != int(code) {
						vsched.Fail("a registered message is encoded as %x: %v", b, err)
					}
					d, err := c.n.DecodeMessage(b)
					if err != nil || !reflect.DeepEqual(d, v) {
						vsched.Fail("a registered message is decoded as %#v: %v", d, err)
					}
				}
			}
			var ts []chan struct{}
			for i := 0; i < k; i++ {
				i := i
				ts = append(ts, spawn(procA, func() {
					switch {
					case i == 0:
						reg(1)
						reg(2)
					case i == 1 && plan == 0:
						reg(2)
						reg(1)
					case i == 1 && plan == 1:
						reg(3)
					default:
						v := mStruct{"x"}
						for j := 0; j < 2; j++ {
							b, err := c.n.EncodeMessage(v)
							if err != nil || string(b) != "\x00\x00x" {
								vsched.Fail("encoded as %x: %v", b, err)
							}
							d, err := c.n.DecodeMessage(b)
							if err != nil || d != noise.Serializable(v) {
								vsched.Fail("decoded as %#v: %v", d, err)
							}
							// a type being registered is either unknown or coded properly
							if b, err := c.n.EncodeMessage(mBytes{7}); err == nil {
								d, err := c.n.DecodeMessage(b)
								if err != nil || !reflect.DeepEqual(d, mBytes{7}) {
									vsched.Fail("decoded as %#v: %v", d, err)
								}
							}
						}
					}
				}))
			}
			join(ts...)
			seen := map[uint16]int{0: 0}
			done := map[int]bool{}
			for _, r := range rs {
				if !r.ok {
					continue
				}
				if _, ok := seen[r.code]; ok {
					vsched.Fail("opcode %d is given out twice", r.code)
				}
				if done[r.kind] {
					vsched.Fail("a type is registered twice")
				}
				if int(r.code) > len(c.ks) {
					vsched.Fail("opcode %d", r.code)
				}
				seen[r.code], done[r.kind] = r.kind, true
			}
			for i := 0; i < len(seen); i++ {
				if _, ok := seen[uint16(i)]; !ok {
					vsched.Fail("opcodes are not numbered in order: %v", seen)
				}
			}
			for _, r := range rs {
				if !done[r.kind] {
					vsched.Fail("a type can be registered by nobody")
				}
			}
		},
		Quick: mc.Bounds{Cost: 3}, Thorough: mc.Bounds{Cost: 5, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C18", Name: "c18-reentrant", Doc: "a decoder and a Marshal that use the codec themselves, for nested messages, while another thread registers a type",
		Run: func() {
			n := newNode(procA)
			n.RegisterMessage(note{}, unmarshalNote)
			n.RegisterMessage(nested{}, func(b []byte) (nested, error) {
				d, err := n.DecodeMessage(b)
				if err != nil {
					return nested{}, err
				}
				return nested{n, d.(note)}, nil
			})
			t := spawn(procA, func() {
				b, err := n.EncodeMessage(nested{n, note{"inner"}})
				if err != nil || string(b) != "\x00\x01\x00\x00inner" {
					vsched.Fail("encoded as %q: %v", b, err)
				}
				d, err := n.DecodeMessage(b)
				if err != nil || d.(nested).inner != (note{"inner"}) {
					vsched.Fail("decoded as %#v: %v", d, err)
				}
			})
			u := spawn(procA, func() { n.RegisterMessage(mEmpty{}, func(b []byte) (mEmpty, error) { return mEmpty{}, nil }) })
			join(t, u)
		},
		Quick: mc.Bounds{Cost: 3}, Thorough: mc.Bounds{Cost: 5, Policies: []int{0, 1}}, Native: 6,
	})
	mc.Add(mc.Scenario{
		Prop: "C18", Name: "c18-large", Doc: "messages of all sizes around powers of two up to 16 MB are coded: the decoder gets the bytes that were marshalled",
		Run: func() {
			n := newNode(procA)
			var got []byte
			op := n.RegisterMessage(mBytes{}, func(b []byte) (mBytes, error) { got = b; return append(mBytes{}, b...), nil })
			for k := uint(0); k <= 24; k++ {
				for d := -2; d <= 2; d++ {
					size := 1<<k + d
					if size < 0 {
						continue
					}
					m := make(mBytes, size)
					for i := range m {
						m[i] = byte(i*7 + i>>8 + 1)
					}
					e, err := n.EncodeMessage(m)
					if err != nil || len(e) != size+2 || uint16(e[0])<<8|uint16(e[1]) != op || !bytes.Equal(e[2:], m) {
						vsched.Fail("a message of %d bytes is encoded as %d bytes, %v", size, len(e), err)
					}
					o, err := n.DecodeMessage(e)
					if r, ok := o.(mBytes); err != nil || !ok || !bytes.Equal(r, m) || !bytes.Equal(got, m) {
						vsched.Fail("a message of %d bytes is not decoded as it was encoded: %v", size, err)
					}
				}
			}
		},
		Quick: mc.Bounds{}, Thorough: mc.Bounds{}, NoStmts: true,
	})
	mc.Add(mc.Scenario{
		Prop: "C18", Name: "c18-nodes", Doc: "typed messages and requests between nodes: with the same types registered, in another order, or none; typed and malformed responses",
		Run: func() {
			setup := vsched.Pick(4) // of the answering node
			op := vsched.Pick(2)
			var a, b *noise.Node
			var seen []noise.Serializable
			var errs []error
			vsched.Quiet(func() {
				a, b = newNode(procA), newNode(procB)
				a.RegisterMessage(note{}, unmarshalNote)
				a.RegisterMessage(mInt(0), kinds()[3].dec(new([]byte)))
				switch setup {
				case 0:
					b.RegisterMessage(note{}, unmarshalNote)
					b.RegisterMessage(mInt(0), kinds()[3].dec(new([]byte)))
				case 1:
					b.RegisterMessage(mInt(0), kinds()[3].dec(new([]byte)))
					b.RegisterMessage(note{}, unmarshalNote)
				case 2:
				case 3:
					b.RegisterMessage(note{}, unmarshalNote)
				}
				b.Handle(func(ctx noise.HandlerContext) error {
					m, err := ctx.DecodeMessage()
					u := guard()
					seen, errs = append(seen, m), append(errs, err)
					u()
					if !ctx.IsRequest() {
						return nil
					}
					switch m := m.(type) {
					case note:
						return ctx.SendMessage(note{"re:" + m.text})
					case mInt:
						return ctx.Send([]byte{0, 7}) // an opcode nobody knows
					}
					return ctx.Send(nil)
				})
				listen(procA, a)
				listen(procB, b)
			})
			in(procA, func() {
				if op == 0 {
					must(a.SendMessage(bg(), b.Addr(), note{"hi"}))
					vsched.Settle()
				} else {
					m, err := a.RequestMessage(bg(), b.Addr(), note{"hi"})
					ok := setup == 0 || setup == 3
					if (err == nil) != ok || ok && m != noise.Serializable(note{"re:hi"}) {
						vsched.Fail("typed request: %#v %v", m, err)
					}
				}
				if err := a.SendMessage(bg(), b.Addr(), mEmpty{}); err == nil {
					vsched.Fail("a message of an unregistered type is sent")
				}
				if _, err := a.RequestMessage(bg(), b.Addr(), mEmpty{}); err == nil {
					vsched.Fail("a message of an unregistered type is requested")
				}
			})
			vsched.Settle()
			defer guard()()
			if len(seen) != 1 {
				vsched.Fail("%d messages arrived", len(seen))
			}
			switch {
			case setup == 2 && (errs[0] == nil || seen[0] != nil):
				vsched.Fail("decoded by a node that knows no types: %#v", seen[0])
			case (setup == 0 || setup == 3) && (errs[0] != nil || seen[0] != noise.Serializable(note{"hi"})):
				vsched.Fail("decoded as %#v: %v", seen[0], errs[0])
			case setup == 1 && (errs[0] != nil || seen[0] != noise.Serializable(mInt('h'<<8|'i'))):
				vsched.Fail("decoded as %#v: %v", seen[0], errs[0])
			}
		},
		Quick: mc.Bounds{Cost: 1}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1}}, Native: 6,
	})
}

// MEmb is embedded in types made at run time.
type MEmb struct{ N int64 }

// Marshal tells which type it is.
func (m MEmb) Marshal() []byte { return []byte{byte(m.N >> 16), byte(m.N >> 8), byte(m.N)} }

type nested struct {
	n     *noise.Node
	inner note
}

func (m nested) Marshal() []byte {
	b, err := m.n.EncodeMessage(m.inner)
	if err != nil {
		vsched.Fail("nested message: %v", err)
	}
	return b
}

// generalise removes what is specific to a case.
func generalise(s string) string {
	f := strings.Fields(s)
	if len(f) > 12 {
		f = f[:12]
	}
	return strings.Join(f, " ")
}
