package main

import (
	"fmt"
	"sort"

	"github.com/perlin-network/noise"
	"verif.local/rt/mc"
	"verif.local/rt/vsched"
)

// crew is a node whose handlers wait until they are told to go on.
type crew struct {
	n       *noise.Node
	gates   map[string]chan error
	running map[string]bool
	most    int
	done    map[string]int
	fail    map[string]error
}

func crewOf(workers uint, handlers int, opts ...noise.NodeOption) *crew {
	c := &crew{gates: map[string]chan error{}, running: map[string]bool{}, done: map[string]int{}}
	c.n = newNode(procB, append(opts, noise.WithNodeNumWorkers(workers))...)
	for i := 0; i < handlers; i++ {
		first, last := i == 0, i == handlers-1
		c.n.Handle(func(ctx noise.HandlerContext) error {
			m := string(ctx.Data())
			var gate chan error
			func() {
				defer guard()()
				vsched.Mark()
				if c.running[m] == first {
					vsched.Fail("message %s is being handled twice", m)
				}
				c.running[m] = true
				if len(c.running) > c.most {
					c.most = len(c.running)
				}
				if first {
					gate = make(chan error, 1)
					c.gates[m] = gate
				}
			}()
			var err error
			if gate != nil {
				err = <-gate
			}
			if err != nil || last {
				defer guard()()
				vsched.Mark()
				delete(c.running, m)
				delete(c.gates, m)
				c.done[m]++
			}
			return err
		})
	}
	listen(procB, c.n)
	return c
}

// busy are the messages that are being handled.
func (c *crew) busy() (out []string) {
	defer guard()()
	for m := range c.running {
		out = append(out, m)
	}
	sort.Strings(out)
	return
}

func (c *crew) release(m string, err error) {
	u := guard()
	g := c.gates[m]
	u()
	g <- err
}

func c30(name string, doc string, maxWorkers, messages int, q, t mc.Bounds, thorough bool) {
	mc.Add(mc.Scenario{
		Prop: "C30", Name: name, Doc: doc, ThoroughOnly: thorough,
		Run: func() {
			workers := vsched.Pick(maxWorkers + 1)
			conns := 1 + vsched.Pick(2)
			handlers := 1 + vsched.Pick(2)
			how := vsched.Pick(3) // no message fails, the first to go on fails, the connection it came from is closed by the peer
			vsched.QuietOn()
			c := crewOf(uint(workers), handlers)
			want := workers
			if want == 0 {
				want = 1
			}
			ps := make([]*rawPeer, conns)
			for i := range ps {
				ps[i] = dialShake(c.n.Addr(), byte(i+1), procC+i, 7)
			}
			vsched.Quiesce()
			vsched.QuietOff()
			var ds []chan struct{}
			for i := range ps {
				i := i
				ds = append(ds, spawn(procC+i, func() {
					for j := i; j < messages; j += conns {
						ps[i].send(0, []byte(fmt.Sprintf("%d", j)))
					}
				}))
			}
			join(ds...)
			vsched.Quiesce()
			failed := map[int]bool{}
			left := messages
			for left > 0 {
				busy := c.busy()
				expect := want
				if left < expect {
					expect = left
				}
				if len(failed) == 0 && len(busy) != expect {
					vsched.Fail("%d message(s) are being handled by %d worker(s) while %d wait: %v", len(busy), want, left-len(busy), busy)
				}
				if len(busy) == 0 {
					break // what is left was lost with its connection
				}
				m := busy[vsched.Pick(len(busy))]
				var err error
				if len(failed) == 0 && how > 0 {
					from := int(m[0]-'0') % conns
					failed[from] = true
					if how == 1 {
						err = errBad
					} else {
						ps[from].conn.Close()
					}
				}
				c.release(m, err)
				left--
				vsched.Quiesce()
			}
			defer guard()()
			if c.most > want {
				vsched.Fail("%d messages were handled at the same time by %d worker(s)", c.most, want)
			}
			for j := 0; j < messages; j++ {
				k := c.done[fmt.Sprint(j)]
				if k > 1 || k < 1 && !failed[j%conns] {
					vsched.Fail("message %d was handled %d times", j, k)
				}
			}
		},
		Quick: q, Thorough: t,
	})
}

func init() {
	c30("c30-workers", "up to 3 workers and 4 messages over one or two connections; handlers wait and are let go on in every order, the first of them failing, or losing its connection, or not", 3, 4,
		mc.Bounds{Cost: 2, Policies: []int{0, 1}}, mc.Bounds{Cost: 3, Policies: []int{0, 1}}, false)
	c30("c30-many", "the same with up to 4 workers and 6 messages", 4, 6,
		mc.Bounds{Cost: 0, Policies: []int{0, 1}}, mc.Bounds{Cost: 0, Policies: []int{0, 1}}, false)

	mc.Add(mc.Scenario{
		Prop: "C30", Name: "c30-default", Doc: "a node with the default number of workers (the number of processors, here 2)",
		Run: func() {
			vsched.QuietOn()
			c := &crew{}
			in(procB, func() {
				var err error
				c.n, err = noise.NewNode(noise.WithNodePrivateKey(key(procB)))
				must(err)
			})
			running, most := 0, 0
			gate := make(chan struct{})
			c.n.Handle(func(noise.HandlerContext) error {
				u := guard()
				running++
				if running > most {
					most = running
				}
				u()
				vsched.Mark()
				<-gate
				defer guard()()
				running--
				return nil
			})
			listen(procB, c.n)
			p := dialShake(c.n.Addr(), 1, procC, 7)
			vsched.Quiesce()
			vsched.QuietOff()
			for i := 0; i < 5; i++ {
				p.send(0, []byte{byte(i)})
			}
			vsched.Quiesce()
			if running != 2 {
				vsched.Fail("%d messages are being handled instead of 2", running)
			}
			close(gate)
			vsched.Quiesce()
			if running != 0 || most > 2 {
				vsched.Fail("%d of 5 messages are still being handled, up to %d at a time", running, most)
			}
		},
		Quick: mc.Bounds{Cost: 1, Policies: []int{0, 1}}, Thorough: mc.Bounds{Cost: 2, Policies: []int{0, 1, 2}},
	})
}
