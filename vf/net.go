package vf

import (
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/rpc"
	"time"
)

// A network of listeners inside one symbolic world: calls go straight to what was registered.

type netListener struct {
	addr   string
	closed chan bool
	shut   bool
	rpc    *rpc.Server
}

type netAddr string

func (a netAddr) Network() string { return "tcp" }
func (a netAddr) String() string  { return string(a) }

type rpcReg struct {
	s    *rpc.Server
	name string
	rcvr any
}

var (
	netListeners []*netListener
	rpcRegs      []rpcReg
)

func (l *netListener) Accept() (net.Conn, error) {
	<-l.closed
	return nil, errClosed
}

func (l *netListener) Close() error {
	if l.shut {
		return errClosed
	}
	l.shut = true
	close(l.closed)
	return nil
}

func (l *netListener) Addr() net.Addr { return netAddr(l.addr) }

func mListen(network, addr string) (net.Listener, error) {
	l := &netListener{addr: fmt.Sprintf("127.0.0.1:%d", 40000+len(netListeners)), closed: make(chan bool)}
	netListeners = append(netListeners, l)
	return l, nil
}

func mRPCNewServer() *rpc.Server { return &rpc.Server{} }

func mRPCRegisterName(s *rpc.Server, name string, rcvr any) error {
	rpcRegs = append(rpcRegs, rpcReg{s, name, rcvr})
	return nil
}

func mHTTPServe(s *http.Server, l net.Listener) error {
	nl := l.(*netListener)
	if r, ok := s.Handler.(*rpc.Server); ok {
		nl.rpc = r
	}
	<-nl.closed
	return errServerClosed
}

func netFind(addr string) *netListener {
	for _, l := range netListeners {
		if l.addr == addr && !l.shut {
			return l
		}
	}
	return nil
}

type rpcConn struct {
	addr   string
	srv    *rpc.Server
	closed bool
}

var (
	errRefused      = errors.New("dial tcp: connection refused")
	errServerClosed = errors.New("http: Server closed")
	errShutdown     = rpcError("connection is shut down")
	errClosed       = errors.New("use of closed network connection")
)

func mRPCDial(network, addr, path string) (*rpcConn, error) {
	if l := netFind(addr); l != nil {
		for i := 0; l.rpc == nil; i++ { // the connection waits in the listener's queue until it is served
			if i > 100 {
				return nil, errRefused
			}
			time.Sleep(time.Millisecond)
		}
		return &rpcConn{addr: addr, srv: l.rpc}, nil
	}
	if RPC == nil {
		return nil, errRefused
	}
	return &rpcConn{addr: addr}, nil
}

func mRPCCall(c *rpcConn, method string, args, reply any) error {
	if c.closed {
		return errShutdown
	}
	if c.srv != nil {
		if netFind(c.addr) == nil {
			return errShutdown
		}
		for _, r := range rpcRegs {
			if r.s == c.srv && len(method) > len(r.name) && method[:len(r.name)+1] == r.name+"." {
				return Dispatch(r.rcvr, method, args, reply)
			}
		}
		return rpcError("rpc: can't find service " + method)
	}
	return RPC(c.addr, method, args, reply)
}

func mRPCClose(c *rpcConn) error {
	if c.closed {
		return errShutdown
	}
	c.closed = true
	return nil
}
