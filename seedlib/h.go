package main

// Helpers of the demonstration: a small stand-in for redis, the om-core
// process, and a scriptable MMF.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
)

func fail(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	cleanup()
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func pass() {
	fmt.Println("ok")
	cleanup()
	os.Exit(0)
}

var running []*exec.Cmd

func cleanup() {
	for _, c := range running {
		c.Process.Kill()
	}
}

// ---- redis ----

type entry struct {
	ms, seq int64
	fields  []string
}

func (e entry) id() string { return fmt.Sprintf("%d-%d", e.ms, e.seq) }

type fakeRedis struct {
	mu      sync.Mutex
	entries []entry
	lastMs  int64
	lastSeq int64
	addr    string
	// Decides what happens to a command: "" executes it, "drop" closes the
	// connection instead, "lose" executes it and closes the connection,
	// "err" answers with an error.
	hook func(args []string) string
	now  func() time.Time
}

func newRedis() *fakeRedis {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	r := &fakeRedis{addr: l.Addr().String(), now: time.Now}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go r.serve(c)
		}
	}()
	return r
}

func (r *fakeRedis) port() string { return strings.Split(r.addr, ":")[1] }

func (r *fakeRedis) count(kind string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, e := range r.entries {
		if e.fields[0] == kind {
			n++
		}
	}
	return n
}

func (r *fakeRedis) setHook(h func(args []string) string) {
	r.mu.Lock()
	r.hook = h
	r.mu.Unlock()
}

func (r *fakeRedis) serve(c net.Conn) {
	defer c.Close()
	br, bw := bufio.NewReaderSize(c, 1<<20), bufio.NewWriterSize(c, 1<<20)
	for {
		args, err := readCmd(br)
		if err != nil {
			return
		}
		r.mu.Lock()
		h := r.hook
		r.mu.Unlock()
		act := ""
		if h != nil {
			act = h(args)
		}
		if act == "drop" {
			return
		}
		if act == "err" {
			fmt.Fprintf(bw, "-ERR injected\r\n")
		} else {
			r.exec(args, bw)
		}
		if act == "lose" {
			return
		}
		if br.Buffered() == 0 {
			if bw.Flush() != nil {
				return
			}
		}
	}
}

func readCmd(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	out := make([]string, n)
	for i := range out {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:k])
	}
	return out, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func parseId(s string) (ms, seq int64) {
	p := strings.SplitN(s, "-", 2)
	ms, _ = strconv.ParseInt(p[0], 10, 64)
	if len(p) > 1 {
		seq, _ = strconv.ParseInt(p[1], 10, 64)
	}
	return
}

func (r *fakeRedis) exec(args []string, w io.Writer) {
	switch strings.ToUpper(args[0]) {
	case "XADD":
		i := 2
		for i < len(args) && args[i] != "*" {
			i++
		}
		r.mu.Lock()
		ms := r.now().UnixMilli()
		if ms <= r.lastMs {
			r.lastSeq++
		} else {
			r.lastMs, r.lastSeq = ms, 0
		}
		e := entry{r.lastMs, r.lastSeq, args[i+1:]}
		r.entries = append(r.entries, e)
		r.mu.Unlock()
		io.WriteString(w, bulk(e.id()))
	case "XTRIM":
		ms, seq := parseId(args[len(args)-1])
		r.mu.Lock()
		n := 0
		for n < len(r.entries) && (r.entries[n].ms < ms || r.entries[n].ms == ms && r.entries[n].seq < seq) {
			n++
		}
		r.entries = append([]entry{}, r.entries[n:]...)
		r.mu.Unlock()
		fmt.Fprintf(w, ":%d\r\n", n)
	case "XREAD":
		count, block, last := 1000000, 0, ""
		for i := 1; i < len(args)-1; i++ {
			switch strings.ToUpper(args[i]) {
			case "COUNT":
				count, _ = strconv.Atoi(args[i+1])
			case "BLOCK":
				block, _ = strconv.Atoi(args[i+1])
			}
		}
		last = args[len(args)-1]
		ms, seq := parseId(last)
		end := time.Now().Add(time.Duration(block) * time.Millisecond)
		for {
			r.mu.Lock()
			var out []entry
			for _, e := range r.entries {
				if (e.ms > ms || e.ms == ms && e.seq > seq) && len(out) < count {
					out = append(out, e)
				}
			}
			r.mu.Unlock()
			if len(out) > 0 {
				fmt.Fprintf(w, "*1\r\n*2\r\n%s*%d\r\n", bulk("om-replication"), len(out))
				for _, e := range out {
					fmt.Fprintf(w, "*2\r\n%s*%d\r\n", bulk(e.id()), len(e.fields))
					for _, f := range e.fields {
						io.WriteString(w, bulk(f))
					}
				}
				return
			}
			if time.Now().After(end) {
				io.WriteString(w, "*-1\r\n")
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
	case "PING":
		io.WriteString(w, "+PONG\r\n")
	default:
		io.WriteString(w, "+OK\r\n")
	}
}

// ---- om-core ----

type core struct {
	cmd  *exec.Cmd
	cl   pb.OpenMatchServiceClient
	dead atomic.Bool
	gone chan struct{}
	log  string
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return strings.Split(l.Addr().String(), ":")[1]
}

var coreN int

// Starts om-core with short batching and polling intervals. Without a redis it
// is started in memory mode.
func startCore(r *fakeRedis, env ...string) *core {
	coreN++
	port := freePort()
	c := &core{gone: make(chan struct{}), log: filepath.Join(os.Getenv("DEMO_DIR"), fmt.Sprintf("core%d.log", coreN))}
	c.cmd = exec.Command(os.Getenv("DEMO_CORE"))
	c.cmd.Env = append(os.Environ(), "PORT="+port, "OM_LOGGING_LEVEL=error",
		"OM_CACHE_IN_WAIT_TIMEOUT_MS=20", "OM_CACHE_OUT_WAIT_TIMEOUT_MS=10", "OM_MMF_TIMEOUT_SECS=20",
		"OM_REDIS_POOL_IDLE_TIMEOUT=10s")
	if r == nil {
		c.cmd.Env = append(c.cmd.Env, "OM_STATE_STORAGE_TYPE=memory")
	} else {
		c.cmd.Env = append(c.cmd.Env, "OM_REDIS_WRITE_PORT="+r.port(), "OM_REDIS_READ_PORT="+r.port())
	}
	c.cmd.Env = append(c.cmd.Env, env...)
	f, err := os.Create(c.log)
	must(err)
	c.cmd.Stdout, c.cmd.Stderr = f, f
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(c.cmd.Start())
	running = append(running, c.cmd)
	go func() {
		c.cmd.Wait()
		c.dead.Store(true)
		close(c.gone)
	}()
	for i := 0; ; i++ {
		if x, err := net.Dial("tcp", "127.0.0.1:"+port); err == nil {
			x.Close()
			break
		}
		if i > 200 {
			fail("om-core does not start")
		}
		time.Sleep(50 * time.Millisecond)
	}
	conn, err := grpc.Dial("127.0.0.1:"+port, grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20), grpc.WaitForReady(true)))
	must(err)
	c.cl = pb.NewOpenMatchServiceClient(conn)
	return c
}

func (c *core) tail() string {
	b, _ := os.ReadFile(c.log)
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

func ctxT(d time.Duration) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), d)
	return ctx
}

func (c *core) create(t *pb.Ticket) string {
	res, err := c.cl.CreateTicket(ctxT(20*time.Second), &pb.CreateTicketRequest{Ticket: t})
	must(err)
	return res.GetTicketId()
}

func (c *core) activate(ids ...string) {
	_, err := c.cl.ActivateTickets(ctxT(20*time.Second), &pb.ActivateTicketsRequest{TicketIds: ids})
	must(err)
}

func (c *core) deactivate(ids ...string) {
	_, err := c.cl.DeactivateTickets(ctxT(20*time.Second), &pb.DeactivateTicketsRequest{TicketIds: ids})
	must(err)
}

// ---- MMF ----

type mmf struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	port int32
	run  func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error
}

func (m *mmf) Run(s pb.MatchMakingFunctionService_RunServer) error {
	var chunks []*pb.ChunkedMmfRunRequest
	for {
		in, err := s.Recv()
		if err != nil {
			return err
		}
		chunks = append(chunks, in)
		if int(in.GetNumChunks()) == len(chunks) {
			break
		}
	}
	return m.run(chunks, s)
}

func startMMF(run func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error) *mmf {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	m := &mmf{port: int32(l.Addr().(*net.TCPAddr).Port), run: run}
	s := grpc.NewServer()
	pb.RegisterMatchMakingFunctionServiceServer(s, m)
	go s.Serve(l)
	return m
}

func (m *mmf) spec(name string) *pb.MatchmakingFunctionSpec {
	return &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: m.port, Type: pb.MatchmakingFunctionSpec_GRPC}
}

// The participants of a pool.
func tickets(chunks []*pb.ChunkedMmfRunRequest, pool string) (out []*pb.Ticket) {
	for _, c := range chunks {
		out = append(out, c.GetProfile().GetPools()[pool].GetParticipants().GetTickets()...)
	}
	return
}

// Calls the MMFs and collects the matches.
func (c *core) invoke(d time.Duration, p *pb.Profile, mmfs ...*pb.MatchmakingFunctionSpec) ([]*pb.Match, error) {
	s, err := c.cl.InvokeMatchmakingFunctions(ctxT(d), &pb.MmfRequest{Profile: p, Mmfs: mmfs})
	if err != nil {
		return nil, err
	}
	var out []*pb.Match
	for {
		m, err := s.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, m.GetMatch())
	}
}

// The profile om-core sends to an MMF for p.
func (c *core) look(p *pb.Profile) []*pb.ChunkedMmfRunRequest {
	var got []*pb.ChunkedMmfRunRequest
	m := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		got = chunks
		return nil
	})
	_, err := c.invoke(30*time.Second, p, m.spec("look"))
	must(err)
	if got == nil {
		fail("the MMF was not run")
	}
	return got
}

// Whether om-core offers each of the tickets.
func (c *core) offered() map[string]*pb.Ticket {
	out := map[string]*pb.Ticket{}
	for _, t := range tickets(c.look(&pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}), "all") {
		out[t.GetId()] = t
	}
	return out
}

func allPool() *pb.Profile {
	return &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}
}

func matchOf(id string, ts ...*pb.Ticket) *pb.StreamedMmfResponse {
	return &pb.StreamedMmfResponse{Match: &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"r": {Name: "r", Tickets: ts}}}}
}

func repl() { time.Sleep(150 * time.Millisecond) }
