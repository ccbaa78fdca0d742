// Package plan describes simulated executions and generates them.
package plan

// Plan is one execution: everything that happens in a run is a function of the
// plan and the code. It is also the replay file.
type Plan struct {
	Seed    uint64   `json:"seed"` // scheduling, network and storage randomness
	Prop    string   `json:"prop"` // property the run concentrates on
	Note    string   `json:"note,omitempty"`
	Cfg     Cfg      `json:"cfg"`
	Sched   Sched    `json:"sched"`
	Tickets []Spec   `json:"tickets,omitempty"`
	Ops     []*Op    `json:"ops,omitempty"`
	Faults  []*Fault `json:"faults,omitempty"`
	WorkMs  int64    `json:"work_ms"` // length of the workload phase
	Final   Final    `json:"final"`
	Example *Example `json:"example,omitempty"`
}

// Example is a run of the example matchmaker, against a recording stand-in for
// om-core or, through a recording proxy, against the real one.
type Example struct {
	Conn        string    `json:"conn"` // http (default) or grpc
	Cycles      int       `json:"cycles,omitempty"`
	Tix         int       `json:"tix"`
	Dur         int       `json:"dur,omitempty"`
	NoSim       bool      `json:"no_sim,omitempty"`
	IgnoreEmpty bool      `json:"ignore_empty,omitempty"`
	Real        bool      `json:"real,omitempty"`
	MaxMs       int64     `json:"max_ms"`              // the run is cut short after that
	Rounds      []ExRound `json:"rounds,omitempty"`    // what each invocation returns; then nothing
	CreateMs    int64     `json:"create_ms,omitempty"` // longest time each call takes
	ActMs       int64     `json:"act_ms,omitempty"`
	CreateErr   float64   `json:"create_err,omitempty"` // probability that a creation fails
}

// ExRound is the answer to one invocation of the example.
type ExRound struct {
	Matches int   `json:"matches"`
	Rosters int   `json:"rosters"`
	Size    int   `json:"size"`
	DelayMs int64 `json:"delay_ms,omitempty"` // before the first match and after the last
	GapMs   int64 `json:"gap_ms,omitempty"`   // pause within the stream, now and then
	Err     bool  `json:"err,omitempty"`      // the stream ends with an error (grpc)
}

// Cfg is the deployment.
type Cfg struct {
	Storage     string   `json:"storage"` // redis or memory
	Cores       int      `json:"cores"`   // om-core instances at start
	Replica     bool     `json:"replica,omitempty"`
	ReplicaLag  int64    `json:"replica_lag_ms,omitempty"`
	InWait      int      `json:"in_wait_ms"`
	InMax       int      `json:"in_max"`
	OutWait     int      `json:"out_wait_ms"`
	OutMax      int      `json:"out_max"`
	TTL         int      `json:"ttl_s"`
	AssignTTL   int      `json:"assign_ttl_s"`
	MaxUpd      int      `json:"max_updates"`
	MMFTimeout  int      `json:"mmf_timeout_s"`
	PoolIdle    int      `json:"pool_idle"`
	PoolActive  int      `json:"pool_active"`
	IdleTimeout string   `json:"idle_timeout"`
	DeactWait   bool     `json:"deact_wait"`
	LogLevel    string   `json:"log_level"`
	LogFormat   string   `json:"log_format,omitempty"`
	Verbose     bool     `json:"verbose,omitempty"`
	LatUS       int64    `json:"lat_us"`
	JitterUS    int64    `json:"jitter_us"`
	Frag        bool     `json:"frag,omitempty"`
	Window      int      `json:"window"`
	SkewMs      []int64  `json:"skew_ms,omitempty"` // wall-clock skew of each core host
	RedisSkewMs int64    `json:"redis_skew_ms,omitempty"`
	MMFHosts    int      `json:"mmf_hosts"`
	Clients     int      `json:"clients"`
	Preload     *Preload `json:"preload,omitempty"`
	NoReuse     bool     `json:"no_reuse,omitempty"` // clients use a new connection per call
	Accounts    bool     `json:"accounts,omitempty"` // redis has one account for writing and another for reading
	Port        int      `json:"redis_port,omitempty"`
	ReadPort    int      `json:"redis_read_port,omitempty"` // of the replica
}

// Preload is state an earlier deployment left in the log.
type Preload struct {
	N      int   `json:"n"`
	Size   int   `json:"size"`   // payload bytes per ticket
	Active int   `json:"active"` // how many of them are active
	AgeMs  int64 `json:"age_ms"`
}

// Sched decides interleaving.
type Sched struct {
	Yield  float64 `json:"yield"` // probability of a switch at each statement
	Stalls []Stall `json:"stalls,omitempty"`
	Probes int     `json:"probes,omitempty"` // observations triggered inside stalls, at most
}

// Stall makes a goroutine of a core sleep at one statement, now and then.
type Stall struct {
	Site  string  `json:"site"` // statement, as named by the instrumenter
	Prob  float64 `json:"prob"`
	Max   int     `json:"max"`
	MinMs int64   `json:"min_ms"`
	MaxMs int64   `json:"max_ms"`
	Probe string  `json:"probe,omitempty"` // what to do while stalled: "", probe, traffic
}

// Spec is a ticket to create.
type Spec struct {
	Tags     []string           `json:"tags,omitempty"`
	Str      map[string]string  `json:"str,omitempty"`
	Dbl      map[string]float64 `json:"dbl,omitempty"`
	Pad      int                `json:"pad,omitempty"`       // bytes of extension payload
	Create   *int64             `json:"create_ms,omitempty"` // creation time, ms relative to the call
	Expire   *int64             `json:"expire_ms,omitempty"` // expiration time, ms relative to the call
	BadTimes bool               `json:"bad_times,omitempty"` // invalid timestamps
	NoAttr   bool               `json:"no_attr,omitempty"`
	GiveID   string             `json:"give_id,omitempty"` // client-supplied id (ignored by the API)
	Many     int                `json:"many,omitempty"`    // further extensions, tags and arguments
	Twin     int                `json:"twin,omitempty"`    // 1 + label of a ticket that this one equals in everything
}

// Op is one client operation.
type Op struct {
	ID      int      `json:"id"`
	AtMs    int64    `json:"at"`
	Kind    string   `json:"kind"` // create activate deactivate invoke assign watch bad metrics
	Node    int      `json:"node"` // core host
	Client  int      `json:"client"`
	Via     string   `json:"via,omitempty"` // grpc (default) or rest
	T       []int    `json:"t,omitempty"`   // ticket labels
	Raw     []string `json:"raw,omitempty"` // further ids, verbatim
	Timeout int64    `json:"timeout_ms,omitempty"`
	Cancel  int64    `json:"cancel_ms,omitempty"` // client gives up after this
	Inv     *Invoke  `json:"inv,omitempty"`
	Conn    string   `json:"conn,omitempty"`
	Many    int      `json:"many,omitempty"` // further extensions of the assignment
	Bad     string   `json:"bad,omitempty"`
	SlowMs  int64    `json:"slow_ms,omitempty"` // client reads streamed results slowly
	Smp     *Sample  `json:"sample,omitempty"`
}

// Sample is a direct call of a sample matchmaking function.
type Sample struct {
	Fn     string         `json:"fn"`
	Pools  map[string]int `json:"pools"` // tickets per pool
	Chunks int            `json:"chunks"`
	Order  string         `json:"order,omitempty"` // "", random, shuffle
	Empty  string         `json:"empty,omitempty"` // "", roster, bare: pools without tickets in a chunk
	Cut    int            `json:"cut,omitempty"`
	Pad    int            `json:"pad,omitempty"`
	Break  int            `json:"break,omitempty"` // the request ends before this chunk
	GapMs  int64          `json:"gap_ms,omitempty"`
	SlowMs int64          `json:"slow_ms,omitempty"`
}

// Invoke is an InvokeMatchmakingFunctions call.
type Invoke struct {
	Name  string    `json:"name,omitempty"` // profile name, if it is not unique to the call
	Pools []Pool    `json:"pools"`
	Ext   int       `json:"ext,omitempty"`  // bytes of profile extension
	Many  int       `json:"many,omitempty"` // further extensions of profile and pools
	MMFs  []MMFCall `json:"mmfs"`

	MMFName *string `json:"mmf_name,omitempty"` // name of all its functions, if they are not told apart
}

// Pool is a pool of a profile.
type Pool struct {
	Key    string      `json:"key"`
	Name   string      `json:"name,omitempty"`
	Tags   []string    `json:"tags,omitempty"`
	Str    [][2]string `json:"str,omitempty"`
	Dbl    []DblFilter `json:"dbl,omitempty"`
	Time   *TimeFilter `json:"time,omitempty"`
	Ext    int         `json:"ext,omitempty"`
	Nil    bool        `json:"nil,omitempty"`
	BadTS  string      `json:"bad_ts,omitempty"`  // start/end: invalid timestamp
	PreTix bool        `json:"pre_tix,omitempty"` // request carries participants of its own
}

type DblFilter struct {
	Arg    string  `json:"arg"`
	Min    float64 `json:"min"`
	Max    float64 `json:"max"`
	Bounds int     `json:"bounds"`
}

type TimeFilter struct {
	StartMs *int64 `json:"start,omitempty"` // relative to the start of the run
	EndMs   *int64 `json:"end,omitempty"`
	Bounds  int    `json:"bounds"`
}

// MMFCall is one MMF of an invocation, and what it does.
type MMFCall struct {
	Host   int    `json:"host"`              // MMF host; -1: no such host, -2: nothing listens there
	Type   string `json:"type,omitempty"`    // "" grpc; rest
	NoPort bool   `json:"no_port,omitempty"` // port is part of the host string
	Sample string `json:"sample,omitempty"`  // a sample function instead of a script
	// Script.
	Matches    []MatchSpec `json:"matches,omitempty"`
	End        string      `json:"end,omitempty"` // ok error abort hang
	EndDelayMs int64       `json:"end_delay_ms,omitempty"`
	Early      bool        `json:"early,omitempty"`         // answers before reading the profile
	Inter      bool        `json:"inter,omitempty"`         // returns matches while it reads the profile
	RecvDelay  int64       `json:"recv_delay_ms,omitempty"` // reads slowly
	StopRecv   int         `json:"stop_recv,omitempty"`     // fails after this many chunks
	Helper     bool        `json:"helper,omitempty"`        // reads the profile with mmf/server's GetChunkedRequest
}

// MatchSpec is one match an MMF returns.
type MatchSpec struct {
	DelayMs int64  `json:"delay_ms,omitempty"`
	Rosters int    `json:"rosters"`
	Size    int    `json:"size"`            // tickets per roster
	Names   int    `json:"names,omitempty"` // how rosters are called
	Pool    string `json:"pool,omitempty"`
	From    int    `json:"from,omitempty"`  // index of the first ticket taken from the pool
	Weird   string `json:"weird,omitempty"` // nil, none, emptyid, nilroster, unknown, dup, bare
	Pad     int    `json:"pad,omitempty"`
	Many    int    `json:"many,omitempty"` // further extensions of match and rosters
	Any     bool   `json:"any,omitempty"`  // tickets by label, whether or not they are in the pool
	Labels  []int  `json:"labels,omitempty"`
	Same    bool   `json:"same_id,omitempty"` // carries an id other matches of the call have as well
	NoID    bool   `json:"no_id,omitempty"`
}

// Fault is an injected fault window (or instant).
type Fault struct {
	AtMs  int64   `json:"at"`
	DurMs int64   `json:"dur,omitempty"`
	Kind  string  `json:"kind"`
	Node  int     `json:"node,omitempty"`
	Mmf   int     `json:"mmf,omitempty"`
	Prob  float64 `json:"prob,omitempty"`
	Max   int     `json:"max,omitempty"`
	Ms    int64   `json:"ms,omitempty"`
	Text  string  `json:"text,omitempty"`
	Sig   string  `json:"sig,omitempty"`
	Reset bool    `json:"reset,omitempty"`
	// DownMs: how long a crashed process stays away (-1: for good).
	DownMs int64 `json:"down,omitempty"`
	Silent bool  `json:"silent,omitempty"`
}

// Final says what happens after the workload and the faults.
type Final struct {
	Live    bool  `json:"live"`              // liveness: a complete client flow on every instance
	Expire  bool  `json:"expire"`            // outlive the time to live and check that nothing remains
	Join    bool  `json:"join"`              // a late joiner must agree with the others
	Stop    bool  `json:"stop"`              // stop every instance by signal at the end
	Metrics bool  `json:"metrics,omitempty"` // compare the metrics with what was served
	ExtraMs int64 `json:"extra_ms,omitempty"`
}

// Stand-ins for numbers JSON cannot express.
const (
	NaN     = 1.5e301
	Inf     = 2.5e301
	NegZero = 3.5e301
)
