// Package simredis is a stand-in for Redis: the RESP protocol and the stream
// commands om-core uses, served over the simulated network. It keeps the whole
// replication log for the oracles and injects storage faults.
package simredis

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/dst/simnet"
)

// Entry is one stream entry, as appended.
type Entry struct {
	Seq    int64 // global event sequence number of the append
	T      int64 // simulated time of the append (ns)
	ID     string
	Ms, N  uint64
	Fields []string
	From   string // client host
	Conn   int
	// TrimmedSeq/T: when the entry was removed (0: still there).
	TrimSeq, TrimT int64
	TrimBy         string
}

// Reject is an XADD that got an error reply or whose fate the client cannot know.
type Reject struct {
	T      int64
	Kind   string // "error": refused; "lost": connection broken before execution
	Fields []string
	From   string
}

// Rule is one fault window.
type Rule struct {
	Kind string // xadd-error, xread-error, any-error, drop-before, drop-after, torn, slow, hang
	Prob float64
	From string // client host, "" = any
	Ms   int64  // delay for slow
	Max  int    // at most this many firings (0: unlimited)
	Text string

	fired int
	on    bool
}

// Server is one simulated Redis deployment: a primary and, optionally, a
// replica host that lags.
type Server struct {
	Net      *simnet.Net
	Host     *simnet.Host
	Replica  *simnet.Host
	LagMs    func() int64
	Port     int
	Inc      int32
	RInc     int32
	SkewNs   int64
	User     string
	Password string
	Seq      func() int64
	Now      func() int64 // simulated ns
	rng      *rand.Rand

	mu             sync.Mutex
	Log            []*Entry // every entry ever appended
	live           []*Entry // current stream of the primary
	rlive          []*Entry // current stream of the replica
	lastMs         uint64
	lastN          uint64
	cond           *sync.Cond
	rcond          *sync.Cond
	rqueue         []replOp
	ReplicaStalled bool
	lis            []*simnet.Listener
	rules          []*Rule
	Rejects        []*Reject
	Fired          map[string]int
	Cmds           map[string]int
	Unknown        []string
	// OnAppend is called after every append (primary).
	OnAppend func(e *Entry)
	// OnFault is called whenever a rule fires, with the client host.
	OnFault func(kind, from string)
	connSeq int
	Trims   []Trim

	// Access control, when the deployment has it: writers may only write, at
	// the primary, and readers only read, at the replica if there is one.
	ReadUser, ReadPassword string
	RPort                  int // port of the replica
	Batches                []*Batch
	Polls                  []*Poll
	Misuse                 []Misuse
}

// Batch is a run of appends without waiting for replies.
type Batch struct {
	T, End int64
	N      int
	Inc    int32 // process that sent it
	From   string
}

// Poll is one read of the log.
type Poll struct {
	T, Done int64
	Inc     int32
	From    string
	Count   int   // at most so many entries; 0: any number
	Block   int64 // ms; -1: not at all, 0: for ever
	N       int   // entries delivered; -1: failed
}

// Misuse is a use of a server or of an account not meant for that.
type Misuse struct {
	T    int64
	Inc  int32
	From string
	What string
}

// Trim is one effective XTRIM.
type Trim struct {
	T       int64
	From    string
	Thresh  string
	Removed int
}

type replOp struct {
	at   int64
	add  *Entry
	trim int
}

func New(n *simnet.Net, h, replica *simnet.Host, seed uint64) *Server {
	s := &Server{Net: n, Host: h, Replica: replica, Port: 6379, User: "default", Password: "om-redis",
		rng: rand.New(rand.NewPCG(seed, 77)), Fired: map[string]int{}, Cmds: map[string]int{}}
	s.cond = sync.NewCond(&s.mu)
	s.rcond = sync.NewCond(&s.mu)
	return s
}

// Start opens the listeners. The caller runs on the server's node.
func (s *Server) Start(inc int32) error {
	s.Inc = inc
	l, err := s.Net.ListenOn(s.Host, inc, s.Port)
	if err != nil {
		return err
	}
	s.lis = append(s.lis[:0], l)
	go s.accept(l, false)
	if s.Replica != nil {
		l, err := s.Net.ListenOn(s.Replica, inc, max(s.RPort, 1))
		if err != nil {
			return err
		}
		s.lis = append(s.lis, l)
		go s.accept(l, true)
	}
	return nil
}

// Stop closes the listeners and breaks every connection (stored data survives).
func (s *Server) Stop(silent bool) {
	s.Net.Kill(s.Host, s.Inc, silent)
	if s.Replica != nil {
		s.Net.Kill(s.Replica, s.Inc, silent)
	}
	s.mu.Lock()
	s.cond.Broadcast()
	s.rcond.Broadcast()
	s.mu.Unlock()
}

func (s *Server) AddRule(r *Rule) {
	s.mu.Lock()
	r.on = true
	s.rules = append(s.rules, r)
	s.mu.Unlock()
}

func (s *Server) RemoveRule(r *Rule) {
	s.mu.Lock()
	r.on = false
	for i, x := range s.rules {
		if x == r {
			s.rules = append(s.rules[:i], s.rules[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
}

// fire decides whether a rule of one of the kinds applies to this client.
func (s *Server) fire(from string, kinds ...string) *Rule {
	for _, r := range s.rules {
		if r.From != "" && r.From != from {
			continue
		}
		if r.Max > 0 && r.fired >= r.Max {
			continue
		}
		ok := false
		for _, k := range kinds {
			if r.Kind == k {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if s.rng.Float64() >= r.Prob {
			continue
		}
		r.fired++
		s.Fired["redis-"+r.Kind]++
		if s.OnFault != nil {
			s.OnFault(r.Kind, from)
		}
		return r
	}
	return nil
}

func (s *Server) accept(l *simnet.Listener, replica bool) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		s.connSeq++
		go s.serve(c.(*simnet.Conn), replica, s.connSeq)
	}
}

var errDrop = errors.New("drop")

type session struct {
	s       *Server
	c       *simnet.Conn
	r       *bufio.Reader
	w       bytes.Buffer
	id      int
	from    string
	replica bool
	authed  bool
	user    string
	inc     int32
	batch   *Batch
	multi   bool
	queued  [][]string
}

func (s *Server) serve(c *simnet.Conn, replica bool, id int) {
	defer c.Close()
	ss := &session{s: s, c: c, r: bufio.NewReader(c), id: id, from: c.RemoteHost().Name, inc: c.RemoteNode(), replica: replica}
	for {
		args, err := readCommand(ss.r)
		if err != nil {
			if strings.HasPrefix(err.Error(), "Protocol error") {
				fmt.Fprintf(&ss.w, "-ERR %s\r\n", err)
				ss.flush()
			}
			return
		}
		if len(args) == 0 {
			continue
		}
		if err := ss.do(args); err != nil {
			c.Abort()
			return
		}
		if ss.r.Buffered() == 0 {
			if err := ss.flush(); err != nil {
				return
			}
		}
	}
}

// flush sends everything buffered; it must be called without the server lock.
func (ss *session) flush() error {
	if ss.w.Len() == 0 {
		return nil
	}
	_, err := ss.c.Write(ss.w.Bytes())
	ss.w.Reset()
	return err
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := readLine(r)
	if err != nil {
		return nil, err
	}
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n > 1<<20 {
		return nil, errors.New("Protocol error: invalid multibulk length")
	}
	var args []string
	for i := 0; i < n; i++ {
		line, err := readLine(r)
		if err != nil {
			return nil, err
		}
		if line == "" || line[0] != '$' {
			return nil, errors.New("Protocol error: expected '$'")
		}
		k, err := strconv.Atoi(line[1:])
		if err != nil || k < 0 || k > 512<<20 {
			return nil, errors.New("Protocol error: invalid bulk length")
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func readLine(r *bufio.Reader) (string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(line, "\r\n"), nil
}

func (ss *session) errf(format string, a ...any) { fmt.Fprintf(&ss.w, "-"+format+"\r\n", a...) }
func (ss *session) bulk(v string)                { fmt.Fprintf(&ss.w, "$%d\r\n%s\r\n", len(v), v) }
func (ss *session) arr(n int)                    { fmt.Fprintf(&ss.w, "*%d\r\n", n) }
func (ss *session) int(n int)                    { fmt.Fprintf(&ss.w, ":%d\r\n", n) }

func (ss *session) do(args []string) error {
	s := ss.s
	cmd := strings.ToUpper(args[0])
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Cmds[cmd]++
	switch cmd {
	case "AUTH":
		user, pass := "default", ""
		if len(args) == 2 {
			pass = args[1]
		} else if len(args) == 3 {
			user, pass = args[1], args[2]
		}
		ok := user == s.User && pass == s.Password
		if s.ReadUser != "" {
			if s.Replica != nil {
				ok = ok && !replica(ss)
			}
			ok = ok || user == s.ReadUser && pass == s.ReadPassword && (s.Replica == nil || replica(ss))
		}
		if !ok {
			ss.misuse("logs in as %s with a password that is not the one of this server", user)
			ss.errf("WRONGPASS invalid username-password pair or user is disabled.")
			return nil
		}
		ss.authed, ss.user = true, user
		ss.w.WriteString("+OK\r\n")
		return nil
	case "QUIT":
		ss.w.WriteString("+OK\r\n")
		s.mu.Unlock()
		ss.flush()
		s.mu.Lock()
		return errDrop
	}
	if !ss.authed && s.Password != "" {
		ss.misuse("%s without logging in", cmd)
		ss.errf("NOAUTH Authentication required.")
		return nil
	}
	switch cmd {
	case "XADD", "XTRIM":
		if ss.replica {
			ss.misuse("%s at the server for reading", cmd)
		} else if s.ReadUser != "" && ss.user != s.User {
			ss.misuse("%s with the account for reading", cmd)
			ss.errf("NOPERM User %s has no permissions to run the '%s' command", ss.user, strings.ToLower(cmd))
			return nil
		}
	case "XREAD", "XRANGE", "XREVRANGE", "XLEN":
		if !ss.replica && s.Replica != nil {
			ss.misuse("%s at the server for writing", cmd)
		}
		if s.ReadUser != "" && ss.user != s.ReadUser {
			ss.misuse("%s with the account for writing", cmd)
			ss.errf("NOPERM User %s has no permissions to run the '%s' command", ss.user, strings.ToLower(cmd))
			return nil
		}
	}
	ss.batched(cmd)
	// Faults that apply to any command.
	if r := s.fire(ss.from, "slow"); r != nil {
		s.mu.Unlock()
		time.Sleep(time.Duration(r.Ms) * time.Millisecond)
		s.mu.Lock()
	}
	if r := s.fire(ss.from, "hang"); r != nil {
		for r.on {
			s.mu.Unlock()
			time.Sleep(50 * time.Millisecond)
			s.mu.Lock()
		}
	}
	if s.fire(ss.from, "drop-before") != nil {
		ss.reject("lost", cmd, args)
		return errDrop
	}
	if r := s.fire(ss.from, "any-error"); r != nil {
		ss.reject("error", cmd, args)
		ss.errf("%s", r.text())
		return nil
	}
	switch cmd {
	case "MULTI":
		ss.multi, ss.queued = true, nil
		ss.w.WriteString("+OK\r\n")
		return nil
	case "DISCARD":
		ss.multi = false
		ss.w.WriteString("+OK\r\n")
		return nil
	case "EXEC":
		if !ss.multi {
			ss.errf("ERR EXEC without MULTI")
			return nil
		}
		ss.multi = false
		ss.arr(len(ss.queued))
		for _, q := range ss.queued {
			if err := ss.exec(strings.ToUpper(q[0]), q); err != nil {
				return err
			}
		}
		return nil
	}
	if ss.multi {
		ss.queued = append(ss.queued, args)
		ss.w.WriteString("+QUEUED\r\n")
		return nil
	}
	return ss.exec(cmd, args)
}

func replica(ss *session) bool { return ss.replica }

func (ss *session) misuse(format string, a ...any) {
	s := ss.s
	if len(s.Misuse) < 100 {
		s.Misuse = append(s.Misuse, Misuse{s.Now(), ss.inc, ss.from, fmt.Sprintf(format, a...)})
	}
}

// batched keeps account of how many updates arrive at once. A batch ends with
// the trim, or when so much time passes that a reply may have been awaited.
func (ss *session) batched(cmd string) {
	s := ss.s
	now := s.Now()
	if b := ss.batch; b != nil && (cmd != "XADD" || now-b.End >= 2*s.Net.Def.LatUS*1000) {
		ss.batch = nil
	}
	if cmd != "XADD" {
		return
	}
	if ss.batch == nil {
		ss.batch = &Batch{T: now, Inc: ss.inc, From: ss.from}
		s.Batches = append(s.Batches, ss.batch)
	}
	ss.batch.N++
	ss.batch.End = now
}

func (r *Rule) text() string {
	if r.Text != "" {
		return r.Text
	}
	return "ERR injected failure"
}

func (ss *session) reject(kind, cmd string, args []string) {
	if cmd != "XADD" || len(args) < 5 {
		return
	}
	ss.s.Rejects = append(ss.s.Rejects, &Reject{T: ss.s.Now(), Kind: kind, Fields: append([]string(nil), args[3:]...), From: ss.from})
}

// after is the end of a command that changed or read data: the reply may be
// lost or torn.
func (ss *session) after() error {
	s := ss.s
	if s.fire(ss.from, "drop-after") != nil {
		return errDrop
	}
	if s.fire(ss.from, "torn") != nil {
		// Send a random part of what is buffered, then break.
		n := ss.w.Len()
		if n > 1 {
			ss.c.Limit = 1 + s.rng.Int64N(int64(n))
			s.mu.Unlock()
			ss.flush()
			s.mu.Lock()
		}
		return errDrop
	}
	return nil
}

func (ss *session) exec(cmd string, args []string) error {
	s := ss.s
	switch cmd {
	case "PING":
		if len(args) > 1 {
			ss.bulk(args[1])
		} else {
			ss.w.WriteString("+PONG\r\n")
		}
	case "ECHO":
		ss.bulk(args[1])
	case "SELECT", "CLIENT":
		ss.w.WriteString("+OK\r\n")
	case "XADD":
		if ss.replica {
			ss.reject("error", cmd, args)
			ss.errf("READONLY You can't write against a read only replica.")
			return nil
		}
		if r := s.fire(ss.from, "xadd-error"); r != nil {
			ss.reject("error", cmd, args)
			ss.errf("%s", r.text())
			return nil
		}
		return ss.xadd(args)
	case "XTRIM":
		if ss.replica {
			ss.errf("READONLY You can't write against a read only replica.")
			return nil
		}
		if r := s.fire(ss.from, "xtrim-error"); r != nil {
			ss.errf("%s", r.text())
			return nil
		}
		return ss.xtrim(args)
	case "XREAD":
		p := &Poll{T: s.Now(), Inc: ss.inc, From: ss.from, N: -1, Block: -1}
		s.Polls = append(s.Polls, p)
		defer func() { p.Done = s.Now() }()
		if r := s.fire(ss.from, "xread-error"); r != nil {
			ss.errf("%s", r.text())
			return nil
		}
		return ss.xread(args, p)
	case "XLEN":
		ss.int(len(*ss.stream()))
	case "XRANGE":
		return ss.xrange(args)
	case "EXISTS", "DEL":
		ss.int(0)
	case "INFO":
		ss.bulk("redis_version:7.2.0\r\nloading:0\r\n")
	default:
		s.Unknown = append(s.Unknown, cmd)
		ss.errf("ERR unknown command '%s'", args[0])
	}
	return nil
}

func (ss *session) stream() *[]*Entry {
	if ss.replica {
		return &ss.s.rlive
	}
	return &ss.s.live
}

const streamKey = "om-replication"

func parseID(v string, defN uint64) (ms, n uint64, err error) {
	a, b, ok := strings.Cut(v, "-")
	if ms, err = strconv.ParseUint(a, 10, 64); err != nil {
		return
	}
	n = defN
	if ok {
		n, err = strconv.ParseUint(b, 10, 64)
	}
	return
}

func (ss *session) xadd(args []string) error {
	s := ss.s
	i := 2
	var trim []string
	for i < len(args) {
		switch strings.ToUpper(args[i]) {
		case "NOMKSTREAM":
			i++
			continue
		case "MAXLEN", "MINID":
			j := i + 1
			if j < len(args) && (args[j] == "~" || args[j] == "=") {
				j++
			}
			if j >= len(args) {
				ss.errf("ERR syntax error")
				return nil
			}
			trim = args[i : j+1]
			i = j + 1
			continue
		}
		break
	}
	if i >= len(args) || len(args)-i-1 < 2 || (len(args)-i-1)%2 != 0 {
		ss.errf("ERR wrong number of arguments for 'xadd' command")
		return nil
	}
	id, fields := args[i], args[i+1:]
	var ms, n uint64
	if id == "*" {
		now := uint64((s.Now() + s.SkewNs) / 1e6)
		if now > s.lastMs {
			ms, n = now, 0
		} else {
			ms, n = s.lastMs, s.lastN+1
		}
	} else {
		var err error
		if ms, n, err = parseID(id, 0); err != nil {
			ss.errf("ERR Invalid stream ID specified as stream command argument")
			return nil
		}
		if ms < s.lastMs || ms == s.lastMs && n <= s.lastN {
			ss.errf("ERR The ID specified in XADD is equal or smaller than the target stream top item")
			return nil
		}
	}
	e := s.append(ms, n, fields, ss.from, ss.id)
	if trim != nil {
		s.trim(trim, ss.from)
	}
	ss.bulk(e.ID)
	if args[1] != streamKey {
		s.Unknown = append(s.Unknown, "XADD "+args[1])
	}
	return ss.after()
}

func (s *Server) append(ms, n uint64, fields []string, from string, conn int) *Entry {
	s.lastMs, s.lastN = ms, n
	e := &Entry{Seq: s.Seq(), T: s.Now(), ID: fmt.Sprintf("%d-%d", ms, n), Ms: ms, N: n,
		Fields: append([]string(nil), fields...), From: from, Conn: conn}
	s.Log = append(s.Log, e)
	s.live = append(s.live, e)
	s.replicate(replOp{add: e})
	s.cond.Broadcast()
	if s.OnAppend != nil {
		s.OnAppend(e)
	}
	return e
}

// Preload appends an entry as an earlier deployment would have, with an id
// ageMs before now (call in order of decreasing age, before traffic).
func (s *Server) Preload(ageMs int64, fields []string) *Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	ms := uint64((s.Now()+s.SkewNs)/1e6 - ageMs)
	n := uint64(0)
	if ms <= s.lastMs {
		ms, n = s.lastMs, s.lastN+1
	}
	return s.append(ms, n, fields, "preload", 0)
}

// Foreign appends an entry that no om-core instance wrote: another tool's, or
// one of a release with another format.
func (s *Server) Foreign(fields []string) *Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	ms, n := uint64((s.Now()+s.SkewNs)/1e6), uint64(0)
	if ms <= s.lastMs {
		ms, n = s.lastMs, s.lastN+1
	}
	return s.append(ms, n, fields, "foreign", 0)
}

func (s *Server) trim(a []string, from string) int {
	kind := strings.ToUpper(a[0])
	v := a[len(a)-1]
	k := 0
	switch kind {
	case "MINID":
		ms, n, err := parseID(v, 0)
		if err != nil {
			return -1
		}
		for k < len(s.live) && (s.live[k].Ms < ms || s.live[k].Ms == ms && s.live[k].N < n) {
			k++
		}
	case "MAXLEN":
		m, err := strconv.Atoi(v)
		if err != nil || m < 0 {
			return -1
		}
		k = max(0, len(s.live)-m)
	default:
		return -1
	}
	if len(a) > 2 && a[1] == "~" {
		k -= k % 100 // whole radix nodes only
	}
	if k > 0 {
		seq := s.Seq()
		for _, e := range s.live[:k] {
			e.TrimSeq, e.TrimT, e.TrimBy = seq, s.Now(), from
		}
		s.live = append([]*Entry(nil), s.live[k:]...)
		s.replicate(replOp{trim: k})
		s.Trims = append(s.Trims, Trim{T: s.Now(), From: from, Thresh: v, Removed: k})
	}
	return k
}

func (ss *session) xtrim(args []string) error {
	if len(args) < 4 {
		ss.errf("ERR wrong number of arguments for 'xtrim' command")
		return nil
	}
	k := ss.s.trim(args[2:], ss.from)
	if k < 0 {
		ss.errf("ERR syntax error")
		return nil
	}
	ss.int(k)
	return ss.after()
}

// replicate hands a change to the replica, in order, after the lag.
func (s *Server) replicate(op replOp) {
	if s.Replica == nil {
		return
	}
	lag := int64(0)
	if s.LagMs != nil {
		lag = s.LagMs()
	}
	op.at = s.Now() + lag*1e6
	if k := len(s.rqueue); k > 0 && s.rqueue[k-1].at > op.at {
		op.at = s.rqueue[k-1].at
	}
	s.rqueue = append(s.rqueue, op)
	time.AfterFunc(time.Duration(op.at-s.Now()), s.pumpReplica)
}

func (s *Server) pumpReplica() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ReplicaStalled {
		return
	}
	for len(s.rqueue) > 0 && s.rqueue[0].at <= s.Now() {
		op := s.rqueue[0]
		s.rqueue = s.rqueue[1:]
		if op.add != nil {
			s.rlive = append(s.rlive, op.add)
		} else {
			s.rlive = append([]*Entry(nil), s.rlive[op.trim:]...)
		}
		s.rcond.Broadcast()
	}
}

// StallReplica stops or resumes replication to the replica.
func (s *Server) StallReplica(stall bool) {
	s.mu.Lock()
	s.ReplicaStalled = stall
	if stall {
		s.Fired["redis-replica-stall"]++
	}
	s.mu.Unlock()
	if !stall {
		s.pumpReplica()
	}
}

func (ss *session) xread(args []string, p *Poll) error {
	s := ss.s
	count := 0
	block := int64(-1)
	i := 1
	for i < len(args) {
		switch strings.ToUpper(args[i]) {
		case "COUNT":
			if i+1 >= len(args) {
				ss.errf("ERR syntax error")
				return nil
			}
			c, err := strconv.Atoi(args[i+1])
			if err != nil {
				ss.errf("ERR value is not an integer or out of range")
				return nil
			}
			count = c
			i += 2
			continue
		case "BLOCK":
			if i+1 >= len(args) {
				ss.errf("ERR syntax error")
				return nil
			}
			b, err := strconv.ParseInt(args[i+1], 10, 64)
			if err != nil || b < 0 {
				ss.errf("ERR timeout is not an integer or out of range")
				return nil
			}
			block = b
			i += 2
			continue
		case "STREAMS":
			i++
		default:
			ss.errf("ERR syntax error")
			return nil
		}
		break
	}
	if len(args)-i != 2 {
		ss.errf("ERR Unbalanced 'xread' list of streams: for each stream key an ID or '$' must be specified.")
		return nil
	}
	p.Count, p.Block = count, block
	key, id := args[i], args[i+1]
	var ms, n uint64
	if id == "$" {
		if k := *ss.stream(); len(k) > 0 {
			ms, n = k[len(k)-1].Ms, k[len(k)-1].N
		}
	} else {
		var err error
		if ms, n, err = parseID(id, 0); err != nil {
			ss.errf("ERR Invalid stream ID specified as stream command argument")
			return nil
		}
	}
	cond := s.cond
	if ss.replica {
		cond = s.rcond
	}
	var deadline time.Time
	var timer *time.Timer
	if block > 0 {
		deadline = time.Now().Add(time.Duration(block) * time.Millisecond)
		timer = time.AfterFunc(time.Duration(block)*time.Millisecond, func() {
			s.mu.Lock()
			cond.Broadcast()
			s.mu.Unlock()
		})
		defer timer.Stop()
	}
	for {
		st := *ss.stream()
		lo, hi := 0, len(st)
		for lo < hi {
			m := (lo + hi) / 2
			if st[m].Ms > ms || st[m].Ms == ms && st[m].N > n {
				hi = m
			} else {
				lo = m + 1
			}
		}
		st = st[lo:]
		if len(st) > 0 && key == streamKey {
			if count > 0 && len(st) > count {
				st = st[:count]
			}
			p.N = len(st)
			ss.arr(1)
			ss.arr(2)
			ss.bulk(key)
			ss.arr(len(st))
			for _, e := range st {
				ss.entry(e)
			}
			return ss.after()
		}
		if block < 0 {
			p.N = 0
			ss.w.WriteString("*-1\r\n")
			return nil
		}
		if block > 0 && !time.Now().Before(deadline) {
			p.N = 0
			ss.w.WriteString("*-1\r\n")
			return nil
		}
		if ss.w.Len() > 0 {
			s.mu.Unlock()
			err := ss.flush()
			s.mu.Lock()
			if err != nil {
				return errDrop
			}
			continue
		}
		if ss.c.Broken() {
			return errDrop
		}
		cond.Wait()
	}
}

func (ss *session) entry(e *Entry) {
	ss.arr(2)
	ss.bulk(e.ID)
	ss.arr(len(e.Fields))
	for _, f := range e.Fields {
		ss.bulk(f)
	}
}

func (ss *session) xrange(args []string) error {
	if len(args) < 4 {
		ss.errf("ERR wrong number of arguments for 'xrange' command")
		return nil
	}
	bound := func(v string, defN uint64) (uint64, uint64, bool, error) {
		ex := strings.HasPrefix(v, "(")
		v = strings.TrimPrefix(v, "(")
		switch v {
		case "-":
			return 0, 0, ex, nil
		case "+":
			return ^uint64(0), ^uint64(0), ex, nil
		}
		ms, n, err := parseID(v, defN)
		return ms, n, ex, err
	}
	m1, n1, x1, e1 := bound(args[2], 0)
	m2, n2, x2, e2 := bound(args[3], ^uint64(0))
	if e1 != nil || e2 != nil {
		ss.errf("ERR Invalid stream ID specified as stream command argument")
		return nil
	}
	count := -1
	if len(args) == 6 && strings.ToUpper(args[4]) == "COUNT" {
		count, _ = strconv.Atoi(args[5])
	}
	var out []*Entry
	for _, e := range *ss.stream() {
		if e.Ms < m1 || e.Ms == m1 && (e.N < n1 || x1 && e.N == n1) {
			continue
		}
		if e.Ms > m2 || e.Ms == m2 && (e.N > n2 || x2 && e.N == n2) {
			continue
		}
		if count >= 0 && len(out) >= count {
			break
		}
		out = append(out, e)
	}
	ss.arr(len(out))
	for _, e := range out {
		ss.entry(e)
	}
	return ss.after()
}

// Len is the current length of the primary's stream; Live its entries.
func (s *Server) Live() []*Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Entry(nil), s.live...)
}
