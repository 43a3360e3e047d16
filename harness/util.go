package main

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"verif.local/rt/vnet"
	"verif.local/rt/vsched"
)

// Processes are numbered; everything a process starts carries its number.
const (
	procX = 0 // harness
	procA = 1
	procB = 2
	procC = 3
	procD = 4
)

func bg() context.Context { return context.Background() }

func must(err error) {
	if err != nil {
		vsched.Fail("setup: %v", err)
	}
}

// in runs fn as process g.
func in(g int, fn func()) {
	o := vsched.SetGroup(g)
	fn()
	vsched.SetGroup(o)
}

// spawn starts fn as a thread of process g, the result is closed when it ends.
func spawn(g int, fn func()) chan struct{} {
	done := make(chan struct{})
	o := vsched.SetGroup(g)
	go func() {
		fn()
		close(done)
	}()
	vsched.SetGroup(o)
	return done
}

func join(dones ...chan struct{}) {
	for _, d := range dones {
		<-d
	}
}

var keyCache [16]noise.PrivateKey

// key is the private key of process g.
func key(g int) noise.PrivateKey {
	if keyCache[g] == noise.ZeroPrivateKey {
		copy(keyCache[g][:], ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(g + 1)}, ed25519.SeedSize)))
	}
	return keyCache[g]
}

// newNode makes, but does not start, the node of process g.
func newNode(g int, opts ...noise.NodeOption) *noise.Node {
	var n *noise.Node
	in(g, func() {
		var err error
		n, err = noise.NewNode(append([]noise.NodeOption{
			noise.WithNodePrivateKey(key(g)),
			noise.WithNodeMaxRecvMessageSize(4096),
			noise.WithNodeNumWorkers(1),
			noise.WithNodeBindHost(net.IPv4(127, 0, 0, 1)),
		}, opts...)...)
		must(err)
	})
	return n
}

func listen(g int, n *noise.Node) {
	in(g, func() { must(n.Listen()) })
}

// node makes and starts the node of process g with the given handler.
func node(g int, h noise.Handler, opts ...noise.NodeOption) *noise.Node {
	n := newNode(g, opts...)
	if h != nil {
		n.Handle(h)
	}
	listen(g, n)
	return n
}

func echo(ctx noise.HandlerContext) error {
	if !ctx.IsRequest() {
		return nil
	}
	return ctx.Send(append([]byte("re:"), ctx.Data()...))
}

// connect has node n of process g connect to the other node.
func connect(g int, n *noise.Node, addr string) *noise.Client {
	var c *noise.Client
	in(g, func() {
		var err error
		c, err = n.Ping(bg(), addr)
		must(err)
	})
	return c
}

// timeout is a context that ends after d.
func timeout(d time.Duration) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), d) //nolint
	return ctx
}

// --- a peer speaking the wire protocol by hand ---

type rawPeer struct {
	conn   net.Conn
	eph    noise.PrivateKey
	theirs noise.PublicKey
	shared []byte
	suite  cipher.AEAD
	id     noise.ID // of the other side, once received
	nonce  uint64
}

var handshakeMsg = []byte(".__noise_handshake")

func frame(body []byte) []byte {
	b := make([]byte, 4, 4+len(body))
	binary.BigEndian.PutUint32(b, uint32(len(body)))
	return append(b, body...)
}

func (p *rawPeer) writeRaw(b []byte) error { _, err := p.conn.Write(b); return err }
func (p *rawPeer) writeFrame(body []byte) error {
	return p.writeRaw(frame(body))
}

func (p *rawPeer) readFrame() ([]byte, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(p.conn, h); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h)
	if n > 1<<20 {
		return nil, fmt.Errorf("frame of %d bytes", n)
	}
	b := make([]byte, n)
	_, err := io.ReadFull(p.conn, b)
	return b, err
}

func (p *rawPeer) seal(plain []byte) []byte {
	p.nonce++
	n := make([]byte, 12)
	binary.BigEndian.PutUint64(n[4:], p.nonce)
	n[0] = 0xee
	return p.suite.Seal(n, n, plain, nil)
}

func (p *rawPeer) open(sealed []byte) ([]byte, error) {
	if len(sealed) < 12 {
		return nil, errors.New("short ciphertext")
	}
	return p.suite.Open(nil, sealed[:12], sealed[12:], nil)
}

func ephemeral(seed byte) (noise.PublicKey, noise.PrivateKey) {
	pub, sec, err := noise.GenerateKeys(bytes.NewReader(bytes.Repeat([]byte{seed, 0x5a}, 32)))
	must(err)
	return pub, sec
}

// hello sends the first handshake message.
func (p *rawPeer) hello(seed byte) error {
	pub, sec := ephemeral(seed)
	p.eph = sec
	sig := sec.Sign(handshakeMsg)
	return p.writeFrame(append(append([]byte{}, pub[:]...), sig[:]...))
}

// recvHello reads the other side's first message and derives the session key.
func (p *rawPeer) recvHello() error {
	b, err := p.readFrame()
	if err != nil {
		return err
	}
	if len(b) != noise.SizePublicKey+noise.SizeSignature {
		return fmt.Errorf("hello of %d bytes", len(b))
	}
	copy(p.theirs[:], b)
	if !p.theirs.Verify(handshakeMsg, noise.UnmarshalSignature(b[32:96])) {
		return errors.New("hello with a wrong signature")
	}
	return p.derive(p.theirs)
}

func (p *rawPeer) derive(pub noise.PublicKey) error {
	shared, err := noise.ECDH(p.eph, pub)
	if err != nil {
		return err
	}
	p.shared = shared
	p.suite = gcm(shared)
	return nil
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	must(err)
	s, err := cipher.NewGCM(b)
	must(err)
	return s
}

// proof is the second handshake message for identity id, signed with k.
func (p *rawPeer) proof(id noise.ID, k noise.PrivateKey) []byte {
	m := id.Marshal()
	sig := k.Sign(append(append([]byte{}, m...), p.shared...))
	return append(m, sig[:]...)
}

func (p *rawPeer) sendProof(id noise.ID, k noise.PrivateKey) error {
	return p.writeFrame(p.seal(p.proof(id, k)))
}

func (p *rawPeer) recvProof() error {
	b, err := p.readFrame()
	if err != nil {
		return err
	}
	if b, err = p.open(b); err != nil {
		return err
	}
	id, err := noise.UnmarshalID(b)
	if err != nil {
		return err
	}
	m := id.Marshal()
	if len(b) != len(m)+noise.SizeSignature {
		return fmt.Errorf("proof of %d bytes", len(b))
	}
	if !id.ID.Verify(append(append([]byte{}, m...), p.shared...), noise.UnmarshalSignature(b[len(m):])) {
		return errors.New("proof with a wrong signature")
	}
	p.id = id
	return nil
}

func (p *rawPeer) send(nonce uint64, data []byte) error {
	b := make([]byte, 8, 8+len(data))
	binary.BigEndian.PutUint64(b, nonce)
	return p.writeFrame(p.seal(append(b, data...)))
}

func (p *rawPeer) recv() (uint64, []byte, error) {
	b, err := p.readFrame()
	if err != nil {
		return 0, nil, err
	}
	if b, err = p.open(b); err != nil {
		return 0, nil, err
	}
	if len(b) < 8 {
		return 0, nil, errors.New("short message")
	}
	return binary.BigEndian.Uint64(b), b[8:], nil
}

// shake performs an honest handshake as identity id with key k.
func (p *rawPeer) shake(seed byte, id noise.ID, k noise.PrivateKey) error {
	if err := p.hello(seed); err != nil {
		return err
	}
	if err := p.recvHello(); err != nil {
		return err
	}
	if err := p.sendProof(id, k); err != nil {
		return err
	}
	return p.recvProof()
}

func rawDial(addr string) (*rawPeer, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return &rawPeer{conn: c}, nil
}

func rawID(g int, port uint16) noise.ID {
	return noise.NewID(key(g).Public(), net.IPv4(127, 0, 0, 1), port)
}

// rawListen listens as process g.
func rawListen(g int) (net.Listener, string) {
	var l net.Listener
	in(g, func() {
		var err error
		l, err = net.Listen("tcp", "127.0.0.1:0")
		must(err)
	})
	return l, l.Addr().String()
}

// rawServe accepts connections on l as process g, honestly shaking hands, and runs fn on each.
func rawServe(g int, l net.Listener, fn func(p *rawPeer)) {
	in(g, func() {
		go func() {
			for seed := byte(0x80); ; seed++ {
				c, err := l.Accept()
				if err != nil {
					return
				}
				p := &rawPeer{conn: c}
				port := uint16(l.Addr().(*net.TCPAddr).Port)
				if err := p.shake(seed, rawID(g, port), key(g)); err != nil {
					c.Close()
					continue
				}
				go fn(p)
			}
		}()
	})
}

func live(g int) string {
	var b strings.Builder
	for _, i := range vsched.LiveInGroup(g) {
		fmt.Fprintf(&b, "%s(%s at %s) ", i.Name, i.Site, i.Kind)
	}
	return b.String()
}

// stages of a handshake and exchange at which a peer can stop, see upTo.
const (
	stNothing     = iota // connected
	stHalfHello          // sent half of its first handshake message
	stHello              // sent its first handshake message
	stReadHello          // read the first handshake message, sent nothing
	stSession            // exchanged the first handshake messages
	stHalfProof          // sent half of its second handshake message
	stProof              // sent its second handshake message, did not read the other one
	stReadProof          // read the second handshake message, sent none
	stEstablished        // the handshake is complete
	stRead               // and has read a message
	stHalfHeader         // and has sent half the header of its answer
	stHalfBody           // and has sent half of its answer
	stGarbage            // and has answered with bytes that do not decrypt
	stShort              // and has answered with a message that is too short
	numStages
)

var stageNames = [...]string{"nothing", "half hello", "hello", "read hello", "session", "half proof", "proof", "read proof", "established",
	"read", "half header", "half body", "garbage", "short message"}

// upTo takes part in the protocol, honestly, up to the stage.
func (p *rawPeer) upTo(st int, seed byte, id noise.ID, k noise.PrivateKey) error {
	pub, sec := ephemeral(seed)
	p.eph = sec
	sig := sec.Sign(handshakeMsg)
	hello := frame(append(append([]byte{}, pub[:]...), sig[:]...))
	switch st {
	case stNothing:
		return nil
	case stHalfHello:
		return p.writeRaw(hello[:50])
	case stReadHello:
		return p.recvHello()
	}
	if err := p.writeRaw(hello); err != nil || st == stHello {
		return err
	}
	if err := p.recvHello(); err != nil || st == stSession {
		return err
	}
	if st == stReadProof {
		return p.recvProof()
	}
	proof := frame(p.seal(p.proof(id, k)))
	if st == stHalfProof {
		return p.writeRaw(proof[:60])
	}
	if err := p.writeRaw(proof); err != nil || st == stProof {
		return err
	}
	if err := p.recvProof(); err != nil || st == stEstablished {
		return err
	}
	n, data, err := p.recv()
	if err != nil || st == stRead {
		return err
	}
	ans := frame(p.seal(append([]byte{0, 0, 0, 0, 0, 0, byte(n >> 8), byte(n)}, data...)))
	switch st {
	case stHalfHeader:
		return p.writeRaw(ans[:2])
	case stHalfBody:
		return p.writeRaw(ans[:20])
	case stGarbage:
		ans[len(ans)-1] ^= 1
		return p.writeRaw(ans)
	case stShort:
		return p.writeFrame(p.seal([]byte{0, 0, 0}))
	}
	return nil
}

// rawAccept accepts connections on l as process g and runs fn on each; fn gets how many there were before.
func rawAccept(g int, l net.Listener, fn func(i int, p *rawPeer)) {
	in(g, func() {
		go func() {
			for i := 0; ; i++ {
				c, err := l.Accept()
				if err != nil {
					return
				}
				i := i
				go fn(i, &rawPeer{conn: c})
			}
		}()
	})
}

// drain reads until the other side closes the connection.
func (p *rawPeer) drain() error {
	b := make([]byte, 512)
	for {
		if _, err := p.conn.Read(b); err != nil {
			return err
		}
	}
}

// released waits for whatever is still going on in process g, then checks that it has just the given number of
// goroutines and sockets left.
func released(g, threads, sockets int, when string) {
	vsched.Settle()
	if vsched.Native {
		return
	}
	if n := len(vsched.LiveInGroup(g)); n != threads {
		vsched.Fail("%s %d goroutine(s) remain instead of %d: %s", when, n, threads, live(g))
	}
	if n := vnet.OpenSockets(g); n != sockets {
		vsched.Fail("%s %d socket(s) remain open instead of %d", when, n, sockets)
	}
}

// shut closes node n of process g.
func shut(g int, n *noise.Node) {
	in(g, func() {
		if err := n.Close(); err != nil {
			vsched.Fail("Close: %v", err)
		}
	})
}

// port of a listener.
func port(l net.Listener) uint16 { return uint16(l.Addr().(*net.TCPAddr).Port) }

var natMu sync.Mutex

// guard keeps threads apart in code of the harness when running natively; under the scheduler it is nothing.
func guard() func() {
	if !vsched.Native {
		return func() {}
	}
	natMu.Lock()
	return natMu.Unlock
}

// note is a typed message.
type note struct{ text string }

func (n note) Marshal() []byte { return []byte(n.text) }

func unmarshalNote(b []byte) (note, error) { return note{string(b)}, nil }
