//go:build go1.21

package rt

import (
	"context"
	"errors"
	"net"
	"syscall"
	"time"
)

// DialHook makes the connections of the simulated process.
var DialHook func(ctx context.Context, network, addr string) (net.Conn, error)

// NetDialer stands for net.Dialer.
type NetDialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *NetDialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *NetDialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if DialHook == nil {
		return nil, errors.New("no simulated network")
	}
	if d.Timeout > 0 {
		c, cancel := CtxWithTimeout(ctx, d.Timeout)
		defer cancel()
		ctx = c
	}
	if !d.Deadline.IsZero() {
		c, cancel := CtxWithDeadline(ctx, d.Deadline)
		defer cancel()
		ctx = c
	}
	return DialHook(ctx, network, addr)
}

func NetDial(network, addr string) (net.Conn, error) { return (&NetDialer{}).Dial(network, addr) }

func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return (&NetDialer{Timeout: d}).Dial(network, addr)
}
