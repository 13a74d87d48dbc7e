package snet

import (
	"context"
	"errors"
	"net"
	"time"
	"vsim"
)

// Dialer is a simulated dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return vsim.DialTCP(ctx, address)
}
func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return vsim.DialTCP(context.Background(), address)
}
func Dial(network, address string) (net.Conn, error) {
	return vsim.DialTCP(context.Background(), address)
}
func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return vsim.DialTCP(context.Background(), address)
}

// ListenConfig is a simulated listen configuration.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (l *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return vsim.ListenTCP(ctx, address)
}
func Listen(network, address string) (net.Listener, error) {
	return vsim.ListenTCP(context.Background(), address)
}
func Pipe() (net.Conn, net.Conn) { a, b := vsim.Pair(); return a, b }

var errUnsupported = errors.New("snet: not simulated")
