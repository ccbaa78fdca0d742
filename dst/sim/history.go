package sim

import (
	pb "open-match.dev/pkg/pb/v2"
)

// History is everything that was observed.
type History struct {
	Events     []Event
	Calls      []*Call
	Runs       []*MMFRun
	Samples    []*SampleRun
	Violations []Violation
	Created    map[int]*Created // by label
	ByID       map[string]*Created
	Metrics    []Metric
}

// Created is a ticket the workload asked for.
type Created struct {
	Label   int
	Req     *pb.Ticket // as submitted
	Call    *Call
	ID      string // "" if the call failed or is not done
	Preload bool
	PreAct  bool
	ExpT    int64 // expiration, ns (from the log or the submitted times; 0 unknown)
}

// Call is one client call.
type Call struct {
	Op       *Op
	Kind     string
	Via      string
	Core     int
	Inc      int32
	StartSeq int64
	EndSeq   int64
	Start    int64
	End      int64
	Ended    bool
	Skipped  string
	OK       bool
	Code     string // gRPC code name ("" while running)
	Msg      string
	HTTP     int
	TimedOut bool // the client's own deadline
	Canceled bool
	IDs      []string
	Valid    []string // ids in the documented format
	Labels   []int
	ID       string // created ticket
	ErrIDs   []string
	Matches  []RecvMatch
	Assigns  []RecvAssign
	Assign   *pb.Assignment
	Profile  *pb.Profile
	Probe    bool // an observation, not part of the workload
	Final    bool
	Phase    string
	BadBody  string // unparsable REST reply
}

type RecvMatch struct {
	Seq, T int64
	M      *pb.Match
}

type RecvAssign struct {
	Seq, T int64
	ID     string
	A      *pb.Assignment
}

// MMFRun is one run of a matchmaking function.
type MMFRun struct {
	Host, Port  int
	MmfInc      int32
	Core        int // core host it came from (-1 unknown)
	CoreInc     int32
	Call        *Call
	Spec        *MMFCall
	StartSeq    int64
	Start       int64
	Chunks      []*pb.ChunkedMmfRunRequest
	FirstSeq    int64
	FirstT      int64
	Complete    bool // all announced chunks arrived
	CompleteSeq int64
	CompleteT   int64
	RecvErr     string
	RecvEOF     bool
	helped      *pb.Profile // what mmf/server made of the chunks
	Sent        []SentMatch
	Ended       bool
	EndKind     string // ok error abort hang-cancelled recv-error dead
	EndSeq      int64
	EndT        int64
	Pools       map[string]*PoolView
	Extra       []*pb.ChunkedMmfRunRequest
}

// PoolView is a pool as an MMF assembled it.
type PoolView struct {
	Name     string
	Pool     *pb.Pool
	Tickets  []*pb.Ticket
	InChunks int
}

type SentMatch struct {
	Over   bool // it, or one before it, exceeds what gRPC carries by default
	Seq, T int64
	M      *pb.Match
	Err    string
	Spec   *MatchSpec
}

// SampleRun is one direct run of a sample function.
type SampleRun struct {
	Fn      string
	Pools   map[string][]*pb.Ticket
	Chunks  int
	Matches []*pb.Match
	Err     string
	Fault   bool
	Start   int64
	End     int64
	Done    bool
	Spec    *Sample
}

// Metric is one scrape.
type Metric struct {
	Core   int
	Inc    int32
	Seq, T int64
	T0     int64 // T0..T: when it was asked for and answered
	Vals   map[string]float64
	Err    string
	Quiet  bool  // nothing has been going on for a while
	Probe  *Call // shows what the pools held just before
}
