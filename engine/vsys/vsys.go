//go:build go1.22

// Package vsys stands in for what a server process takes from its operating system: listening, signals and
// the end of the process.  The listening side is connected to the in-memory network.
package vsys

import (
	"context"
	"fmt"
	"log"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"

	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
	"google.golang.org/grpc"
)

var (
	mu         sync.Mutex
	busy       = map[string]bool{} // ports somebody else has
	taken      = map[string]*Listener{}
	handlers   = map[string]http.Handler{}
	notify     []sub
	ended      bool
	code       int
	end        chan bool
	down       chan bool
	registered pb.VeriServiceServer
	raised     bool
	kept       []interface{}
	listens    = map[os.Signal]chan bool{}
)

type sub struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Reset: a new process, on a machine where the given ports are in use.
func Reset(inUse ...int) {
	mu.Lock()
	defer mu.Unlock()
	busy, taken, handlers = map[string]bool{}, map[string]*Listener{}, map[string]http.Handler{}
	notify, registered, kept = nil, nil, nil
	listens = map[os.Signal]chan bool{}
	ended, code, raised = false, 0, false
	end, down = make(chan bool), make(chan bool)
	for _, p := range inUse {
		busy[fmt.Sprint(p)] = true
	}
}

func port(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

// Listener is a listening port.
type Listener struct {
	addr string
	c    chan bool
	once sync.Once
}

// Accept opens the port of the in-memory network; it returns when the listener is closed.
func (l *Listener) Accept() (net.Conn, error) {
	a := "localhost:" + port(l.addr)
	mu.Lock()
	d, srv := down, registered
	mu.Unlock()
	if srv != nil {
		vnet.Register(a, srv)
	}
	select {
	case <-l.c:
		vnet.Unregister(a)
		return nil, net.ErrClosed
	case <-d:
		runtime.Goexit()
	}
	return nil, nil
}
func (l *Listener) Close() error {
	l.once.Do(func() { close(l.c) })
	mu.Lock()
	delete(taken, port(l.addr))
	mu.Unlock()
	return nil
}
func (l *Listener) Addr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", l.addr); return a }

// Listen stands in for net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	vmc.P(-70)
	mu.Lock()
	defer mu.Unlock()
	p := port(addr)
	if busy[p] || taken[p] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{addr: addr, c: make(chan bool)}
	taken[p] = l
	return l, nil
}

// Register stands in for the generated registration function: srv answers once its server accepts calls.
func Register(_ *grpc.Server, srv pb.VeriServiceServer) {
	mu.Lock()
	defer mu.Unlock()
	registered = srv
}

// ListenAndServe stands in for http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	if _, err := Listen("tcp", addr); err != nil {
		return err
	}
	mu.Lock()
	if h != nil {
		handlers[port(addr)] = h
	}
	d := down
	mu.Unlock()
	<-d
	return http.ErrServerClosed
}

// HTTP is the handler at a port.
func HTTP(p int) http.Handler {
	mu.Lock()
	defer mu.Unlock()
	return handlers[fmt.Sprint(p)]
}

// Notify stands in for signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	notify = append(notify, sub{c, sigs})
	for _, q := range sigs {
		if c := listens[q]; c != nil {
			close(c)
			delete(listens, q)
		}
	}
}

// Stop stands in for signal.Stop.
func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	var l []sub
	for _, n := range notify {
		if n.c != c {
			l = append(l, n)
		}
	}
	notify = l
}

func drop(sigs []os.Signal) {
	if len(sigs) == 0 {
		notify = nil
	}
	for i := range notify {
		var l []os.Signal
		for _, q := range notify[i].sigs {
			keep := true
			for _, s := range sigs {
				keep = keep && s != q
			}
			if keep {
				l = append(l, q)
			}
		}
		if len(notify[i].sigs) > 0 && len(l) == 0 {
			l = []os.Signal{syscall.Signal(0)} // none
		}
		notify[i].sigs = l
	}
}

// Reset stands in for signal.Reset.
func ResetSignals(sigs ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	drop(sigs)
}

// Ignore stands in for signal.Ignore.
func Ignore(sigs ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	drop(sigs)
	notify = append(notify, sub{make(chan os.Signal), sigs})
}

// NotifyContext stands in for signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	cx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	mu.Lock()
	d := down
	mu.Unlock()
	go func() {
		select {
		case <-c:
			cancel()
		case <-cx.Done():
		case <-d:
		}
	}()
	return cx, func() { Stop(c); cancel() }
}

// ServeHTTP stands in for the method ListenAndServe of a http.Server.
func ServeHTTP(s *http.Server) error { return ListenAndServe(s.Addr, s.Handler) }

// Listens is closed when the process asks for a signal.
func Listens(s os.Signal) <-chan bool {
	mu.Lock()
	defer mu.Unlock()
	c := make(chan bool)
	listens[s] = c
	return c
}

// Raise sends a signal to the process.
func Raise(s os.Signal) {
	mu.Lock()
	got := false
	for _, n := range notify {
		for _, q := range n.sigs {
			if q == s {
				got = true
				select {
				case n.c <- s:
				default:
				}
				break
			}
		}
		if len(n.sigs) == 0 {
			got = true
			select {
			case n.c <- s:
			default:
			}
		}
	}
	raised = true
	mu.Unlock()
	if !got {
		finish(128 + int(s.(syscall.Signal)))
	}
}

func finish(c int) {
	mu.Lock()
	if !ended {
		ended, code = true, c
		close(end)
	}
	mu.Unlock()
}

// Exit stands in for os.Exit: nothing of the goroutine runs any more.
func Exit(c int) {
	vmc.P(-71)
	finish(c)
	mu.Lock()
	d := down
	mu.Unlock()
	<-d
	runtime.Goexit()
}

func Fatal(a ...interface{})            { log.Print(a...); Exit(1) }
func Fatalf(f string, a ...interface{}) { log.Printf(f, a...); Exit(1) }
func Fatalln(a ...interface{})          { log.Println(a...); Exit(1) }

// Return: the main function returned.
func Return() { finish(0) }

// Ended tells whether the process has ended, and with which code.
func Ended() (bool, int) {
	mu.Lock()
	defer mu.Unlock()
	return ended, code
}

// End is closed when the process ends.
func End() <-chan bool {
	mu.Lock()
	defer mu.Unlock()
	return end
}

// Cleanup lets what is blocked for the rest of the process go.
func Cleanup() {
	mu.Lock()
	select {
	case <-down:
	default:
		close(down)
	}
	mu.Unlock()
}

// Keep remembers what the process made.
func Keep[T any](v T) T {
	mu.Lock()
	kept = append(kept, v)
	mu.Unlock()
	return v
}

// Kept lists what the process made.
func Kept() []interface{} {
	mu.Lock()
	defer mu.Unlock()
	return append([]interface{}(nil), kept...)
}
