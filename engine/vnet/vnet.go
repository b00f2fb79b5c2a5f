//go:build go1.22

// Package vnet is the in-memory network of the model checker.  The instrumenter substitutes it for
// grpc.Dial / *grpc.ClientConn in the code under test; the generated service client works unchanged on top.
// Requests and replies are marshalled and unmarshalled (nothing is shared between "processes"), handlers run
// in their own goroutine with the caller's deadline, and faults are decided by the harness.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
)

// Action is what happens to one call.
type Action int

const (
	OK      Action = iota
	Refuse         // connection refused: the call fails at once
	Hang           // the call never reaches the server; it ends with the caller's deadline
	Lost           // the server executes the call, the reply is lost (ends with the caller's deadline)
	LostErr        // the server executes the call, the caller sees a connection error
)

// Call is one logged call.
type Call struct {
	From, To, Method string
	Req              proto.Message
	At               time.Time
	Err              error
	Act              Action
}

var (
	mu       sync.Mutex
	servers  = map[string]pb.VeriServiceServer{}
	aliases  = map[string]string{}
	calls    []*Call
	problems []string
	// Fault decides the fate of a call (nil: everything works).
	Fault func(c *Call) (Action, time.Duration)
	// State overrides the connectivity state of open connections to a target.
	State func(target string) connectivity.State
	// Caller is the address all callers seem to have (nil: 127.0.0.1).
	Caller net.IP
	// LogCalls keeps the call log (with requests).
	LogCalls bool
	dials    int
	open     int
)

// Reset forgets everything.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	servers = map[string]pb.VeriServiceServer{}
	calls, problems = nil, nil
	Fault, State, Caller = nil, nil, nil
	LogCalls = false
	dials, open = 0, 0
}

// Register makes srv reachable at addr.
func Register(addr string, srv pb.VeriServiceServer) {
	mu.Lock()
	defer mu.Unlock()
	servers[addr] = srv
}

// Unregister takes addr down.
func Unregister(addr string) {
	mu.Lock()
	defer mu.Unlock()
	delete(servers, addr)
}

// Calls returns the call log.
func Calls() []*Call {
	mu.Lock()
	defer mu.Unlock()
	return append([]*Call(nil), calls...)
}

// Problems lists transport misuse seen so far (concurrent sends, sends after the handler returned).
func Problems() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), problems...)
}

func problem(f string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	problems = append(problems, fmt.Sprintf(f, a...))
}

// Open is the number of connections dialled and not closed.
func Open() int {
	mu.Lock()
	defer mu.Unlock()
	return open
}

// Dials is the number of connections ever dialled.
func Dials() int {
	mu.Lock()
	defer mu.Unlock()
	return dials
}

// ClientConn stands in for grpc.ClientConn.
type ClientConn struct {
	target string
	mu     sync.Mutex
	closed bool
	done   chan struct{}
	calls  map[int]context.CancelFunc // server side of the calls under way
	seq    int
}

// track ends the server side of a call with the client's context or connection.
func (c *ClientConn) track(ctx context.Context, cancel context.CancelFunc) context.CancelFunc {
	stop := context.AfterFunc(ctx, cancel)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.calls == nil {
		c.calls = map[int]context.CancelFunc{}
	}
	k := c.seq
	c.seq++
	c.calls[k] = cancel
	return func() {
		stop()
		c.mu.Lock()
		delete(c.calls, k)
		c.mu.Unlock()
		cancel()
	}
}

// Dial stands in for grpc.Dial (non-blocking, never fails for a well-formed target).
func Dial(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	vmc.P(-20)
	mu.Lock()
	defer mu.Unlock()
	dials++
	open++
	return &ClientConn{target: target, done: make(chan struct{})}, nil
}

// DialContext stands in for grpc.DialContext.
func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return Dial(target, opts...)
}

// NewClient stands in for grpc.NewClient.
func NewClient(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return Dial(target, opts...)
}

func (c *ClientConn) Target() string { return c.target }

func (c *ClientConn) GetState() connectivity.State {
	vmc.P(-21)
	c.mu.Lock()
	cl := c.closed
	c.mu.Unlock()
	if cl {
		return connectivity.Shutdown
	}
	if State != nil {
		return State(c.target)
	}
	if lookup(c.target) == nil {
		return connectivity.TransientFailure
	}
	return connectivity.Ready
}

func (c *ClientConn) Close() error {
	vmc.P(-22)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return grpc.ErrClientConnClosing
	}
	c.closed = true
	close(c.done)
	for _, f := range c.calls {
		f()
	}
	mu.Lock()
	open--
	mu.Unlock()
	return nil
}

func (c *ClientConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func lookup(t string) pb.VeriServiceServer {
	mu.Lock()
	defer mu.Unlock()
	return servers[t]
}

func name(method string) string { return method[strings.LastIndex(method, "/")+1:] }

func wire(src, dst interface{}) error {
	b, err := proto.Marshal(src.(proto.Message))
	if err != nil {
		return err
	}
	return proto.Unmarshal(b, dst.(proto.Message))
}

func (c *ClientConn) begin(method string, args interface{}) (pb.VeriServiceServer, *Call, Action, time.Duration, error) {
	if c.isClosed() {
		return nil, nil, 0, 0, status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	k := &Call{To: c.target, Method: name(method), At: time.Now()}
	if args != nil {
		k.Req = proto.Clone(args.(proto.Message))
	}
	act, d := OK, time.Duration(0)
	if Fault != nil {
		act, d = Fault(k)
	}
	k.Act = act
	if LogCalls {
		mu.Lock()
		calls = append(calls, k)
		mu.Unlock()
	}
	srv := lookup(c.target)
	if srv == nil || act == Refuse {
		k.Err = status.Error(codes.Unavailable, "connection refused")
		return nil, k, act, d, k.Err
	}
	return srv, k, act, d, nil
}

func ctxErr(ctx context.Context) error {
	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
		return status.Error(codes.DeadlineExceeded, "context deadline exceeded")
	}
	return status.Error(codes.Canceled, "context canceled")
}

func serverCtx(ctx context.Context) (context.Context, context.CancelFunc) {
	ip := Caller
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	s := peer.NewContext(context.Background(), &peer.Peer{Addr: &net.TCPAddr{IP: ip, Port: 40000}})
	var cancel context.CancelFunc
	if dl, ok := ctx.Deadline(); ok {
		s, cancel = context.WithDeadline(s, dl)
	} else {
		s, cancel = context.WithCancel(s)
	}
	return s, cancel
}

// Invoke performs a unary call.
func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...grpc.CallOption) error {
	vmc.P(-23)
	if ctx.Err() != nil {
		return ctxErr(ctx)
	}
	srv, k, act, delay, err := c.begin(method, args)
	if err != nil {
		return err
	}
	type res struct {
		m   proto.Message
		err error
	}
	ch := make(chan res, 1)
	if act == Hang {
		select {
		case <-ctx.Done():
			k.Err = ctxErr(ctx)
		case <-c.done:
			k.Err = status.Error(codes.Canceled, "grpc: the client connection is closing")
		}
		return k.Err
	}
	sctx, cancel := serverCtx(ctx)
	cancel = c.track(ctx, cancel)
	b, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		cancel()
		return status.Error(codes.Internal, err.Error())
	}
	go func() {
		defer cancel()
		vmc.P(-24)
		if delay > 0 {
			time.Sleep(delay)
			vmc.P(-24)
		}
		m, err := dispatch(sctx, srv, k.Method, b)
		if err == nil && isNil(m) {
			err = status.Error(codes.Internal, "grpc: error while marshaling: proto: Marshal called with nil")
		}
		ch <- res{m, err}
	}()
	if act == Lost {
		<-ctx.Done()
		return ctxErr(ctx)
	}
	select {
	case r := <-ch:
		if act == LostErr {
			return status.Error(codes.Unavailable, "transport is closing")
		}
		vmc.P(-25)
		if r.err != nil {
			k.Err = asStatus(r.err)
			return k.Err
		}
		return wire(r.m, reply)
	case <-ctx.Done():
		k.Err = ctxErr(ctx)
	case <-c.done:
		k.Err = status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	return k.Err
}

func isNil(m proto.Message) bool {
	switch x := m.(type) {
	case nil:
		return true
	case *pb.SearchResponse:
		return x == nil
	case *pb.InsertionResponse:
		return x == nil
	case *pb.JoinResponse:
		return x == nil
	case *pb.AddPeerResponse:
		return x == nil
	case *pb.DataInfo:
		return x == nil
	case *pb.PingResponse:
		return x == nil
	}
	return false
}

func asStatus(err error) error {
	if _, ok := status.FromError(err); ok {
		return err
	}
	return status.Error(codes.Unknown, err.Error())
}

func dispatch(ctx context.Context, srv pb.VeriServiceServer, method string, b []byte) (proto.Message, error) {
	switch method {
	case "Search":
		in := &pb.SearchRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.Search(ctx, in)
	case "Insert":
		in := &pb.InsertionRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.Insert(ctx, in)
	case "Join":
		in := &pb.JoinRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.Join(ctx, in)
	case "AddPeer":
		in := &pb.AddPeerRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.AddPeer(ctx, in)
	case "CreateDataIfNotExists":
		in := &pb.DataConfig{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.CreateDataIfNotExists(ctx, in)
	case "GetDataInfo":
		in := &pb.GetDataRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.GetDataInfo(ctx, in)
	case "Ping":
		in := &pb.PingRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return nil, err
		}
		return srv.Ping(ctx, in)
	}
	return nil, status.Error(codes.Unimplemented, method)
}

// ---------------------------------------------------------------- server streams

type clientStream struct {
	c      *ClientConn
	ctx    context.Context
	method string
	req    interface{}
	ss     *serverStream
	err    error
	k      *Call
}

type serverStream struct {
	ctx      context.Context
	method   string
	ch       chan []byte
	end      chan error
	mu       sync.Mutex
	sending  bool
	returned bool
}

// NewStream starts a server-streaming call.
func (c *ClientConn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	vmc.P(-26)
	if ctx.Err() != nil {
		return nil, ctxErr(ctx)
	}
	if c.isClosed() {
		return nil, status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	return &clientStream{c: c, ctx: ctx, method: method}, nil
}

func (s *clientStream) Header() (metadata.MD, error) { return nil, nil }
func (s *clientStream) Trailer() metadata.MD         { return nil }
func (s *clientStream) Context() context.Context     { return s.ctx }
func (s *clientStream) SendMsg(m interface{}) error  { s.req = m; return nil }

func (s *clientStream) CloseSend() error {
	srv, k, act, delay, err := s.c.begin(s.method, s.req)
	s.k = k
	if err != nil {
		if name(s.method) == "" {
			return err
		}
		s.err = err // surfaces on Recv, as with a non-blocking dial
		return nil
	}
	b, err := proto.Marshal(s.req.(proto.Message))
	if err != nil {
		return err
	}
	sctx, cancel := serverCtx(s.ctx)
	cancel = s.c.track(s.ctx, cancel)
	ss := &serverStream{ctx: sctx, method: name(s.method), ch: make(chan []byte, 64), end: make(chan error, 1)}
	s.ss = ss
	if act == Hang {
		cancel()
		return nil
	}
	m := name(s.method)
	go func() {
		defer cancel()
		vmc.P(-27)
		if delay > 0 {
			time.Sleep(delay)
			vmc.P(-27)
		}
		err := serveStream(srv, m, b, ss)
		ss.mu.Lock()
		if ss.sending {
			problem("%s: handler returned while a Send was in progress", m)
		}
		ss.returned = true
		ss.mu.Unlock()
		vmc.P(-28)
		ss.end <- err
	}()
	return nil
}

func serveStream(srv pb.VeriServiceServer, m string, b []byte, ss *serverStream) error {
	switch m {
	case "DataStream":
		in := &pb.GetDataRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return err
		}
		return srv.DataStream(in, &dataStreamServer{ss})
	case "SearchStream":
		in := &pb.SearchRequest{}
		if err := proto.Unmarshal(b, in); err != nil {
			return err
		}
		return srv.SearchStream(in, &searchStreamServer{ss})
	}
	return status.Error(codes.Unimplemented, m)
}

func (s *clientStream) RecvMsg(m interface{}) error {
	vmc.P(-29)
	if s.err != nil {
		return s.err
	}
	if s.ctx.Err() != nil {
		s.err = ctxErr(s.ctx)
		return s.err
	}
	select {
	case b := <-s.ss.ch:
		return proto.Unmarshal(b, m.(proto.Message))
	default:
	}
	select {
	case b := <-s.ss.ch:
		return proto.Unmarshal(b, m.(proto.Message))
	case err := <-s.ss.end:
		// everything sent before the handler returned is delivered first
		select {
		case b := <-s.ss.ch:
			s.ss.end <- err
			return proto.Unmarshal(b, m.(proto.Message))
		default:
		}
		if err == nil {
			s.err = io.EOF
		} else {
			s.err = asStatus(err)
		}
		return s.err
	case <-s.ctx.Done():
		s.err = ctxErr(s.ctx)
	case <-s.c.done:
		s.err = status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	return s.err
}

func (s *serverStream) send(m proto.Message) error {
	s.mu.Lock()
	if s.returned {
		s.mu.Unlock()
		problem("%s: Send after the handler returned", s.method)
		return status.Error(codes.Internal, "SendMsg called after the handler returned")
	}
	if s.sending {
		s.mu.Unlock()
		problem("%s: concurrent Send calls on one stream", s.method)
		return status.Error(codes.Internal, "concurrent SendMsg")
	}
	s.sending = true
	s.mu.Unlock()
	vmc.P(-30)
	defer func() {
		s.mu.Lock()
		s.sending = false
		s.mu.Unlock()
	}()
	b, err := proto.Marshal(m)
	if err != nil {
		return err
	}
	select {
	case s.ch <- b:
		return nil
	case <-s.ctx.Done():
		return ctxErr(s.ctx)
	}
}

func (s *serverStream) SetHeader(metadata.MD) error  { return nil }
func (s *serverStream) SendHeader(metadata.MD) error { return nil }
func (s *serverStream) SetTrailer(metadata.MD)       {}
func (s *serverStream) Context() context.Context     { return s.ctx }
func (s *serverStream) SendMsg(m interface{}) error  { return s.send(m.(proto.Message)) }
func (s *serverStream) RecvMsg(m interface{}) error  { return io.EOF }

type dataStreamServer struct{ *serverStream }

func (d *dataStreamServer) Send(m *pb.Datum) error { return d.send(m) }

type searchStreamServer struct{ *serverStream }

func (d *searchStreamServer) Send(m *pb.ScoredDatum) error { return d.send(m) }
