package bridge

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

const q35Header = 16

// How one direction of a stream ends.
const (
	endFIN   = iota // everything is sent, then the end
	endReset        // the sender resets the stream somewhere
	endStop         // the receiver asks the sender to stop somewhere
)

// q35Stream is what one stream is supposed to carry.
type q35Stream struct {
	id       uint64
	sess     *q35Session
	byServer bool // who opens it
	uni      bool
	fwd, rev stream // from the opener, and from the acceptor
	fwdEnd   int
	fwdCut   int
	// which direction ends first, in sessions where both orders are lossless
	acceptorFirst bool

	aborted  atomic.Bool // one of the two endpoints aborted it
	accepted atomic.Int32
	done     chan struct{} // the acceptor is finished with it
	opened   atomic.Bool
}

func (s *q35Stream) String() string {
	return fmt.Sprintf("stream %d of session %d (byServer=%v uni=%v end=%d fwd=%d rev=%d acceptorFirst=%v)", s.id, s.sess.n, s.byServer, s.uni, s.fwdEnd, s.fwd.size, s.rev.size, s.acceptorFirst)
}

type q35Session struct {
	w       *q35World
	n       int
	slot    string
	keep    bool // the two directions of a stream end independently
	slow    bool // unidirectional streams that last longer than HalfCloseTimeout
	streams []*q35Stream
	end     string
	code    quic.ApplicationErrorCode

	srv     atomic.Pointer[q35Server]
	gotConn chan *q35Server
	resets  [2]atomic.Int32 // streams that the peer of client (0) or server (1) may see reset before their header
	dgramMu sync.Mutex
	dgram   map[string]int
}

type q35Server struct {
	c    quic.Connection
	sess atomic.Pointer[q35Session]
}

type q35World struct {
	run  *vh.Run
	mu   sync.Mutex
	byID map[uint64]*q35Stream
	next uint64
	ver  atomic.Int64
}

func (w *q35World) add(s *q35Stream) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next++
	s.id = w.next
	s.done = make(chan struct{})
	w.byID[s.id] = s
}

func (w *q35World) get(id uint64) *q35Stream {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.byID[id]
}

func (s *q35Session) fail(key, f string, a ...any) {
	s.w.run.Violate(key, map[string]any{"session": s.n, "backend": s.slot, "end": s.end}, f, a...)
}

func isReset(err error) bool {
	var se *quic.StreamError
	return errors.As(err, &se)
}

// q35Send sends one direction of st.
func q35Send(out quic.SendStream, st *q35Stream, data stream, end, cut int, r *rand.Rand) {
	fail := st.sess.fail
	size := data.size
	if end == endReset {
		size = cut
	}
	half := 0
	if st.sess.slow && st.uni {
		half = size / 2
		data.send(out, r, 0, half)
		time.Sleep(3500 * time.Millisecond)
		st.sess.w.run.Count("slow_streams", 1)
	}
	err := data.send(out, r, half, size)
	switch {
	case end == endReset && err == nil:
		st.aborted.Store(true)
		out.CancelWrite(quic.StreamErrorCode(1000 + st.id%1000))
		st.sess.w.run.Count("resets", 1)
	case err != nil:
		if !st.aborted.Load() {
			fail("stream-write", "%v: sending failed: %v", st, err)
		} else if isReset(err) {
			st.sess.w.run.Count("stopped", 1)
		}
		out.CancelWrite(1)
	default:
		if err := out.Close(); err != nil && !st.aborted.Load() {
			fail("stream-close", "%v: Close: %v", st, err)
		}
	}
}

// q35Recv receives one direction of st and compares.
func q35Recv(in io.Reader, st *q35Stream, dir string, data stream, stopAt int, stop func(), r *rand.Rand) {
	fail := st.sess.fail
	rd := in
	if stopAt >= 0 {
		rd = io.LimitReader(in, int64(stopAt))
	}
	n, bad, err := data.check(rd, r, nil)
	st.sess.w.run.Count("bytes", n)
	if bad >= 0 {
		fail("stream-data", "%v: %s: wrong byte at offset %d of %d received", st, dir, bad, n)
		return
	}
	if stopAt >= 0 && n == stopAt {
		st.aborted.Store(true)
		stop()
		return
	}
	switch {
	case err == io.EOF:
		if n != data.size {
			fail("stream-truncated", "%v: %s: the stream ended cleanly after %d of %d bytes", st, dir, n, data.size)
		} else {
			st.sess.w.run.Count("complete_directions", 1)
		}
	case isReset(err):
		if !st.aborted.Load() {
			fail("stream-reset", "%v: %s: reset after %d of %d bytes although nobody aborted it: %v", st, dir, n, data.size, err)
		}
		st.sess.w.run.Count("resets_seen", 1)
	default:
		if !st.aborted.Load() {
			fail("stream-broken", "%v: %s: failed after %d of %d bytes: %v", st, dir, n, data.size, err)
		}
	}
}

// open opens st on c and does the opener's part.
func (st *q35Stream) open(c quic.Connection, r *rand.Rand) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	hdr := make([]byte, q35Header)
	copy(hdr, "P35.")
	binary.BigEndian.PutUint64(hdr[4:], st.id)
	if st.uni {
		s, err := c.OpenUniStreamSync(ctx)
		if err != nil {
			st.sess.fail("open", "%v: OpenUniStreamSync: %v", st, err)
			return
		}
		s.SetWriteDeadline(time.Now().Add(90 * time.Second))
		st.opened.Store(true)
		s.Write(hdr)
		q35Send(s, st, st.fwd, st.fwdEnd, st.fwdCut, r)
		return
	}
	s, err := c.OpenStreamSync(ctx)
	if err != nil {
		st.sess.fail("open", "%v: OpenStreamSync: %v", st, err)
		return
	}
	s.SetDeadline(time.Now().Add(90 * time.Second))
	st.opened.Store(true)
	s.Write(hdr)
	rr := rand.New(rand.NewSource(r.Int63()))
	recv := make(chan struct{})
	go func() {
		defer close(recv)
		q35Recv(s, st, "to the opener", st.rev, -1, nil, rr)
	}()
	if st.acceptorFirst {
		// Send some, and the rest when the other direction has ended.
		half := st.fwd.size / 2
		st.fwd.send(s, r, 0, half)
		<-recv
		st.sess.w.run.Count("acceptor_first", 1)
		if err := st.fwd.send(s, r, half, st.fwd.size); err != nil && !st.aborted.Load() {
			st.sess.fail("stream-write", "%v: sending after the other direction ended failed: %v", st, err)
		}
		s.Close()
		return
	}
	q35Send(s, st, st.fwd, st.fwdEnd, st.fwdCut, r)
	<-recv
}

// accept does the acceptor's part for a stream that arrived at one end.
func (s *q35Session) accept(in quic.ReceiveStream, out quic.SendStream, atServer bool, srv *q35Server, r *rand.Rand) {
	w := q35TheWorld
	dl := time.Now().Add(90 * time.Second)
	in.SetReadDeadline(dl)
	hdr := make([]byte, q35Header)
	if _, err := io.ReadFull(in, hdr); err != nil {
		// A stream that was reset early.
		if out != nil {
			out.CancelWrite(0)
		}
		if isReset(err) {
			w.run.Count("reset_before_header", 1)
			return
		}
		w.run.Violate("stream-header", nil, "a stream arrived that ended within its first %d bytes: %v", q35Header, err)
		return
	}
	id := binary.BigEndian.Uint64(hdr[4:])
	st := w.get(id)
	if st == nil || string(hdr[:4]) != "P35." {
		w.run.Violate("stream-header", fmt.Sprintf("%q", hdr), "a stream arrived whose first bytes nobody sent")
		return
	}
	defer func() {
		if st.accepted.Load() == 1 {
			close(st.done)
		}
	}()
	if n := st.accepted.Add(1); n > 1 {
		st.sess.fail("stream-twice", "%v was delivered %d times", st, n)
		return
	}
	if st.byServer == atServer {
		st.sess.fail("stream-echo", "%v came back to the side that opened it", st)
	}
	if st.uni != (out == nil) {
		st.sess.fail("stream-kind", "%v arrived as a stream of the other kind", st)
	}
	if atServer {
		if old := srv.sess.Load(); old != nil && old != st.sess {
			st.sess.fail("conn-mixed", "%v arrived on the connection of session %d", st, old.n)
		}
		srv.sess.Store(st.sess)
		if !st.sess.srv.CompareAndSwap(nil, srv) && st.sess.srv.Load() != srv {
			st.sess.fail("conn-split", "the streams of one client connection arrived on two backend connections")
		}
		select {
		case st.sess.gotConn <- srv:
		default:
		}
	} else if st.sess != s {
		st.sess.fail("conn-mixed", "%v arrived at the client of session %d", st, s.n)
	}
	stopAt := -1
	if st.fwdEnd == endStop {
		stopAt = st.fwdCut
	}
	var wg sync.WaitGroup
	if out != nil {
		out.SetWriteDeadline(dl)
		sr := rand.New(rand.NewSource(r.Int63()))
		if st.acceptorFirst {
			q35Send(out, st, st.rev, endFIN, 0, sr)
			out = nil
		} else {
			wg.Add(1)
			half := st.rev.size / 2
			ended := make(chan struct{})
			go func() {
				defer wg.Done()
				if err := st.rev.send(out, sr, 0, half); err != nil {
					if !st.aborted.Load() {
						st.sess.fail("stream-write", "%v: answering failed: %v", st, err)
					}
					out.CancelWrite(2)
					return
				}
				<-ended
				if err := st.rev.send(out, sr, half, st.rev.size); err != nil {
					if !st.aborted.Load() {
						st.sess.fail("stream-write", "%v: answering after the other direction ended failed: %v", st, err)
					}
					out.CancelWrite(2)
					return
				}
				out.Close()
			}()
			defer wg.Wait()
			defer close(ended)
		}
	}
	q35Recv(in, st, "to the acceptor", st.fwd, stopAt, func() { in.CancelRead(quic.StreamErrorCode(2000 + st.id%1000)) }, r)
}

var q35TheWorld *q35World

// acceptLoops runs accept for every stream that arrives on c.
func q35AcceptLoops(c quic.Connection, s *q35Session, srv *q35Server, seed int64) {
	var n atomic.Int64
	go func() {
		for {
			in, err := c.AcceptUniStream(context.Background())
			if err != nil {
				return
			}
			go s.accept(in, nil, srv != nil, srv, rand.New(rand.NewSource(seed+n.Add(1))))
		}
	}()
	go func() {
		for {
			in, err := c.AcceptStream(context.Background())
			if err != nil {
				return
			}
			go s.accept(in, in, srv != nil, srv, rand.New(rand.NewSource(seed+n.Add(1))))
		}
	}()
}

// datagrams: the payload says who sent it to whom.
func q35Datagram(sess int, fromServer bool, k, size int) []byte {
	h := fmt.Sprintf("D|%d|%v|%d|%d|", sess, fromServer, k, size)
	b := make([]byte, max(size, len(h)))
	stream{seed: uint64(sess*1000 + k)}.fill(b, 0)
	copy(b, h)
	return b
}

func (w *q35World) datagram(b []byte, s *q35Session, atServer bool) {
	var sess, k, size int
	var from bool
	if n, err := fmt.Sscanf(string(b), "D|%d|%t|%d|%d|", &sess, &from, &k, &size); err != nil || n != 4 {
		w.run.Violate("datagram-data", fmt.Sprintf("%q", b[:min(len(b), 60)]), "a datagram arrived that nobody sent")
		return
	}
	if want := q35Datagram(sess, from, k, size); string(want) != string(b) {
		w.run.Violate("datagram-data", nil, "datagram %d of session %d was modified (%d bytes of %d)", k, sess, len(b), len(want))
		return
	}
	if s == nil || sess != s.n || from == atServer {
		n := -1
		if s != nil {
			n = s.n
		}
		w.run.Violate("datagram-mixed", nil, "a datagram of session %d (from the server: %v) arrived in session %d (at the server: %v)", sess, from, n, atServer)
		return
	}
	s.dgramMu.Lock()
	key := fmt.Sprint(from, k)
	s.dgram[key]++
	twice := s.dgram[key] > 1
	s.dgramMu.Unlock()
	if twice {
		s.fail("datagram-twice", "a datagram was delivered more than once")
	}
	w.run.Count("datagrams_delivered", 1)
}

func q35ReadDatagrams(c quic.Connection, w *q35World, sess func() *q35Session, atServer bool) {
	for {
		b, err := c.ReceiveDatagram(context.Background())
		if err != nil {
			return
		}
		w.datagram(b, sess(), atServer)
	}
}

func TestP35(t *testing.T) {
	run := vh.New(t, "A case is one stream or datagram exchange of a QUIC session; distinct non-trivial = distinct (backend options, opener, kind, how it ends, size classes).")
	e := vp.NewEnv(t)
	w := &q35World{run: run, byID: map[uint64]*q35Stream{}}
	q35TheWorld = w
	protos := []string{"x-one", "x-two"}
	var bes []*proxy.Backend
	type slot struct {
		name       string
		keep, slow bool
	}
	var slots []slot
	var accepted atomic.Int64
	for i := 0; i < 9; i++ {
		sl := slot{name: fmt.Sprintf("q%d.v.test", i), keep: i%3 != 1, slow: i == 8}
		srv := vp.NewQUICServer(t, e.ServerTLS(protos, "up.v.test"), func(c quic.Connection) {
			accepted.Add(1)
			s := &q35Server{c: c}
			q35AcceptLoops(c, nil, s, accepted.Load()*1000)
			q35ReadDatagrams(c, w, func() *q35Session {
				// Datagrams can overtake the first stream.
				vh.Eventually(10*time.Second, func() bool { return s.sess.Load() != nil || c.Context().Err() != nil })
				return s.sess.Load()
			}, true)
		})
		be := &proxy.Backend{ServerNames: []string{sl.name}, Mode: "QUIC", ALPNProtos: &protos, Addresses: []string{srv.Addr}, ForwardRateLimit: 100000,
			InsecureSkipVerify: true, ForwardServerName: "up.v.test", HalfCloseTimeout: vp.Ptr(100 * time.Second)}
		switch {
		case !sl.keep:
			be.ServerCloseEndsConnection = vp.Ptr(true)
		case i%2 == 0:
			be.ServerCloseEndsConnection = vp.Ptr(false)
		}
		if sl.slow {
			be.HalfCloseTimeout = vp.Ptr(2 * time.Second)
		}
		bes = append(bes, be)
		slots = append(slots, sl)
	}
	// Backends that get one TCP connection per stream.
	tcp := vp.NewTCPServer(t, func(c net.Conn) { q35TCPServe(w, c) })
	bes = append(bes, &proxy.Backend{ServerNames: []string{"tcp.v.test"}, Mode: "TCP", ALPNProtos: &protos, Addresses: []string{tcp.Addr}, ForwardRateLimit: 100000, ServerCloseEndsConnection: vp.Ptr(false), HalfCloseTimeout: vp.Ptr(100 * time.Second)})
	p := e.Start(e.Config(true, bes...))
	defer p.End()
	vh.Parallel(12, vh.N(120, 1200), func(i int) {
		if run.NumViolations() > 10 {
			return
		}
		sl := slots[i%len(slots)]
		s := &q35Session{w: w, n: i, slot: sl.name, keep: sl.keep, slow: sl.slow, gotConn: make(chan *q35Server, 1), dgram: map[string]int{}}
		s.run(p, protos)
	})
	vh.Parallel(8, vh.N(40, 400), func(i int) { q35TCP(w, e, p, i) })
	if !vh.Eventually(60*time.Second, func() bool { return len(vh.Stacks("handleQUICQUICStream")) == 0 }) && run.NumViolations() == 0 {
		run.Violate("streams-left", vh.Stacks("handleQUICQUICStream")[0], "all QUIC connections are closed but stream bridges remain")
	}
	for _, x := range vp.Log.TakePanics() {
		run.Violate("panic", x, "a connection handler panicked: %s", vh.Trunc(x, 300))
	}
	run.NeedAtLeast("sessions", 60)
	run.NeedAtLeast("complete_directions", 800)
	run.NeedAtLeast("resets_seen", 20)
	run.NeedAtLeast("datagrams_delivered", 200)
	run.NeedAtLeast("acceptor_first", 30)
	run.NeedAtLeast("slow_streams", 20)
}

func (s *q35Session) run(p *vp.P, protos []string) {
	w := s.w
	r := vh.Rand("P35", s.n)
	sizes := []int{0, 1, 100, 1200, 5000, 40000, 200000}
	pick := func() int {
		n := sizes[r.Intn(len(sizes))]
		if n > 1 {
			n += r.Intn(n)
		}
		return n
	}
	mk := func(byServer, uni bool) *q35Stream {
		st := &q35Stream{sess: s, byServer: byServer, uni: uni, fwd: stream{r.Uint64(), pick()}}
		if !uni {
			st.rev = stream{r.Uint64(), pick()}
		}
		switch r.Intn(8) {
		case 0:
			st.fwdEnd, st.fwdCut = endReset, r.Intn(st.fwd.size+1)
		case 1:
			st.fwdEnd, st.fwdCut = endStop, r.Intn(st.fwd.size+1)
		default:
			st.acceptorFirst = !uni && s.keep && r.Intn(2) == 0
		}
		return st
	}
	hello := &q35Stream{sess: s, fwd: stream{r.Uint64(), 100}, rev: stream{r.Uint64(), 100}}
	w.add(hello)
	for k := 1 + r.Intn(30); k > 0; k-- {
		st := mk(r.Intn(2) == 0, s.slow || r.Intn(2) == 0)
		w.add(st)
		s.streams = append(s.streams, st)
	}
	s.end = []string{"client", "server", "client-code", "server-code"}[r.Intn(4)]
	proto := protos[r.Intn(len(protos))]
	c, closer, err := q35Dial(p, s.slot, proto)
	if err != nil {
		s.fail("dial", "client could not connect: %v", err)
		return
	}
	defer closer()
	q35AcceptLoops(c, s, nil, int64(s.n)*100000)
	go q35ReadDatagrams(c, w, func() *q35Session { return s }, false)
	hello.open(c, rand.New(rand.NewSource(r.Int63())))
	var srv *q35Server
	select {
	case srv = <-s.gotConn:
	case <-time.After(60 * time.Second):
		s.fail("no-connection", "the backend never got the first stream")
		return
	}
	if got := srv.c.ConnectionState().TLS.NegotiatedProtocol; got != proto {
		s.fail("proto", "the client negotiated %q, the backend connection %q", proto, got)
	}
	w.run.Count("sessions", 1)
	var wg sync.WaitGroup
	for _, st := range s.streams {
		conn := c
		if st.byServer {
			conn = srv.c
		}
		sr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			st.open(conn, sr)
			if st.fwdEnd == endReset || !st.opened.Load() {
				// the reset can overtake everything
				select {
				case <-st.done:
				case <-time.After(500 * time.Millisecond):
				}
				return
			}
			select {
			case <-st.done:
			case <-time.After(90 * time.Second):
				s.fail("stream-lost", "%v never arrived or never ended at the other side", st)
			}
		}()
	}
	nd := r.Intn(20)
	if c.ConnectionState().SupportsDatagrams && srv.c.ConnectionState().SupportsDatagrams {
		for k := 0; k < nd; k++ {
			fs := r.Intn(2) == 0
			b := q35Datagram(s.n, fs, k, r.Intn(1100))
			from := c
			if fs {
				from = srv.c
			}
			if err := from.SendDatagram(b); err == nil {
				w.run.Count("datagrams_sent", 1)
			}
			time.Sleep(time.Millisecond)
		}
	} else if nd > 0 {
		s.fail("datagrams", "datagram support was not negotiated although both ends support it")
	}
	wg.Wait()
	for _, st := range s.streams {
		w.run.Eval(true, s.keep, st.byServer, st.uni, st.fwdEnd, class35(st.fwd.size), class35(st.rev.size), st.acceptorFirst)
	}
	if s.n < 3 {
		w.run.Sample(map[string]any{"session": s.n, "streams": fmt.Sprint(s.streams), "end": s.end})
	}
	// The end of one connection is the end of the other one.
	time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	switch s.end {
	case "client":
		c.CloseWithError(0, "bye")
	case "client-code":
		c.CloseWithError(77, "bye")
	case "server":
		srv.c.CloseWithError(0, "bye")
	case "server-code":
		srv.c.CloseWithError(78, "bye")
	}
	other := srv.c
	if s.end == "server" || s.end == "server-code" {
		other = c
	}
	select {
	case <-other.Context().Done():
		w.run.Count("counterparts_closed", 1)
	case <-time.After(40 * time.Second):
		s.fail("counterpart", "the %s closed its connection but the other side's connection stayed open", s.end)
	}
}

func class35(n int) int {
	k := 0
	for ; n > 0; n >>= 3 {
		k++
	}
	return k
}

// q35Dial connects with keep-alives, so that only the proxy ends connections.
func q35Dial(p *vp.P, sni, proto string) (quic.Connection, func(), error) {
	uc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		return nil, nil, err
	}
	tr := &quic.Transport{Conn: uc}
	ra, err := net.ResolveUDPAddr("udp", p.Addr)
	if err != nil {
		return nil, nil, err
	}
	var tc *tls.Config = p.TLSConfig(sni, vp.ClientOpt{Protos: []string{proto}})
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c, err := tr.Dial(ctx, ra, tc, &quic.Config{EnableDatagrams: true, MaxIdleTimeout: 60 * time.Second, KeepAlivePeriod: 5 * time.Second, MaxIncomingStreams: 1000, MaxIncomingUniStreams: 1000})
	if err != nil {
		tr.Close()
		uc.Close()
		return nil, nil, err
	}
	return c, func() { c.CloseWithError(0, ""); tr.Close(); uc.Close() }, nil
}

// q35TCPServe answers one TCP connection, which carries one stream.
func q35TCPServe(w *q35World, c net.Conn) {
	c.SetDeadline(time.Now().Add(90 * time.Second))
	hdr := make([]byte, q35Header)
	if _, err := io.ReadFull(c, hdr); err != nil {
		return
	}
	id := binary.BigEndian.Uint64(hdr[4:])
	st := w.get(id)
	if st == nil || string(hdr[:4]) != "P35." {
		w.run.Violate("stream-header", fmt.Sprintf("%q", hdr), "a connection arrived whose first bytes nobody sent")
		return
	}
	if n := st.accepted.Add(1); n > 1 {
		st.sess.fail("stream-twice", "%v was delivered %d times", st, n)
		return
	}
	defer close(st.done)
	r := rand.New(rand.NewSource(int64(id)))
	if st.fwdEnd == endStop {
		// Close early: a few bytes are read, the others never are.
		io.CopyN(io.Discard, c, int64(st.fwdCut))
		st.aborted.Store(true)
		c.Close()
		return
	}
	var wg sync.WaitGroup
	defer wg.Wait()
	ended := make(chan struct{})
	defer close(ended)
	wg.Add(1)
	go func() {
		defer wg.Done()
		half := st.rev.size / 2
		st.rev.send(c, rand.New(rand.NewSource(int64(id))), 0, half)
		<-ended
		if err := st.rev.send(c, rand.New(rand.NewSource(int64(id))), half, st.rev.size); err != nil {
			st.sess.fail("stream-write", "%v: answering failed: %v", st, err)
		}
		c.(*net.TCPConn).CloseWrite()
	}()
	q35Recv(c, st, "to the TCP server", st.fwd, -1, nil, r)
}

func q35TCP(w *q35World, e *vp.Env, p *vp.P, i int) {
	r := vh.Rand("P35TCP", i)
	s := &q35Session{w: w, n: 100000 + i, slot: "tcp.v.test", keep: true}
	c, closer, err := q35Dial(p, s.slot, "x-one")
	if err != nil {
		s.fail("dial", "client could not connect: %v", err)
		return
	}
	defer closer()
	// Streams that the server gives up on, one after the other.
	rude := 1 + r.Intn(4)
	for k := 0; k < rude; k++ {
		st := &q35Stream{sess: s, fwd: stream{r.Uint64(), 600000}, fwdEnd: endStop, fwdCut: r.Intn(3000)}
		w.add(st)
		cs, err := c.OpenStreamSync(context.Background())
		if err != nil {
			s.fail("open", "OpenStreamSync: %v", err)
			return
		}
		hdr := make([]byte, q35Header)
		copy(hdr, "P35.")
		binary.BigEndian.PutUint64(hdr[4:], st.id)
		cs.SetDeadline(time.Now().Add(60 * time.Second))
		cs.Write(hdr)
		err = st.fwd.send(cs, r, 0, st.fwd.size)
		if isTimeout(err) {
			s.fail("stream-stuck", "%v: the server closed its connection, the client's writes blocked for a minute", st)
		}
		w.run.Count("tcp_rude", 1)
		cs.CancelWrite(0)
		cs.CancelRead(0)
	}
	var wg sync.WaitGroup
	for k := 1 + r.Intn(6); k > 0; k-- {
		st := &q35Stream{sess: s, fwd: stream{r.Uint64(), r.Intn(700000)}, rev: stream{r.Uint64(), r.Intn(300000)}}
		w.add(st)
		sr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			st.open(c, sr)
			select {
			case <-st.done:
				w.run.Count("tcp_streams", 1)
			case <-time.After(90 * time.Second):
				s.fail("stream-lost", "%v never arrived or never ended at the TCP server", st)
			}
			w.run.Eval(true, "tcp", rude, class35(st.fwd.size), class35(st.rev.size))
		}()
	}
	wg.Wait()
}
