// Package vnet has the hooks of the simulated network do nothing: scenarios that depend on them do not run natively.
package vnet

import "net"

type Action int

const (
	Connect Action = iota
	Refuse
	Hang
)

type TCPConn struct{ net.Conn }

func (c *TCPConn) Group() int     { return 0 }
func (c *TCPConn) IsClosed() bool { return false }
func (c *TCPConn) Outgoing() bool { return false }
func (c *TCPConn) CloseWrite() error { return nil }

func OnDial(addr string, fn func(n int) Action) {}
func Observe(fn func(c *TCPConn, data []byte))  {}
func FailAccepts(int, int, error)               {}
func SetBuffer(int)                             {}
func Narrow(int)                                {}
func Dials() []string                           { return nil }
func OpenSockets(int) int                       { return 0 }
func Conns() []*TCPConn                         { return nil }

// Listening lists nothing.
func Listening(int) []*net.TCPAddr { return nil }
