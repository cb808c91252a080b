package parallel_support

import (
	"io"

	"net"
	"net/rpc"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
)

// VzHandler makes the server's handler, without a network listener.
func VzHandler(total int, reporter reporters.Reporter) *ServerHandler {
	return newServerHandler(total, reporter)
}

func (handler *ServerHandler) vzDone() chan any { return handler.done }

// VzDone tells whether the server considers the suite done.
func VzDone(handler *ServerHandler) bool {
	select {
	case <-handler.vzDone():
		return true
	default:
		return false
	}
}

// VzRegisterAlive registers how to tell whether a process is alive.
func VzRegisterAlive(handler *ServerHandler, proc int, alive func() bool) {
	handler.registerAlive(proc, alive)
}

// VzClient is the real client, connected to handler over an in-memory connection.
func VzClient(handler *ServerHandler, addr string) Client {
	if vf.Engine() {
		c := newRPCClient(addr)
		c.Connect()
		return c
	}
	a, b := net.Pipe()
	server := rpc.NewServer()
	server.RegisterName("Server", handler)
	go server.ServeConn(a)
	return &rpcClient{client: rpc.NewClient(b)}
}

// VzSetOutput sets where the server puts the output that the processes send it.
func VzSetOutput(handler *ServerHandler, w io.Writer) { handler.outputDestination = w }
