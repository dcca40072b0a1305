package kernel

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"unicode/utf8"
)

// Blob is a byte string that stays readable in replay files.
type Blob []byte

func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal("t:" + string(b))
	}
	return json.Marshal("b:" + base64.StdEncoding.EncodeToString(b))
}

func (b *Blob) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if len(s) < 2 {
		return fmt.Errorf("bad blob %q", s)
	}
	switch s[:2] {
	case "t:":
		*b = Blob(s[2:])
	case "b:":
		d, err := base64.StdEncoding.DecodeString(s[2:])
		if err != nil {
			return err
		}
		*b = d
	default:
		return fmt.Errorf("bad blob %q", s)
	}
	return nil
}

// Chunk is one arrival of bytes on standard input.
type Chunk struct {
	Data Blob `json:"data"`
	// Gate: the chunk arrives only once the process has nothing left to do but
	// wait for input.
	Gate bool `json:"gate,omitempty"`
}

// ProcSpec is one simulated process.
type ProcSpec struct {
	Prog  string   `json:"prog"`
	Args  []string `json:"args"`
	Env   []string `json:"env,omitempty"`
	Umask uint32   `json:"umask"`

	Stdin []Chunk `json:"stdin,omitempty"`
	// StdinEnd: "" end of file, "stall" the writer never closes, else the errno
	// every further read returns.
	StdinEnd string `json:"stdin_end,omitempty"`
	// StdinFile: standard input is a regular file, not a pipe.
	StdinFile bool `json:"stdin_file,omitempty"`

	// StdoutLimit >= 0: after that many bytes every write to standard output
	// fails with StdoutErr.
	StdoutLimit int   `json:"stdout_limit"`
	StdoutErr   Errno `json:"stdout_err,omitempty"`

	// Script holds a harness program's input operations (served as /w/.script).
	Start int `json:"start,omitempty"` // multi-process: kernel event before which it does not start
}

// Fault is one injected failure: the nth call of the class on the role fails.
type Fault struct {
	Proc   int    `json:"proc"`
	Call   string `json:"call"` // class of the system call
	Role   string `json:"role"` // stdin, stdout, stderr, a path, or *
	Nth    int    `json:"nth"`
	Errno  Errno  `json:"errno"`
	Sticky bool   `json:"sticky,omitempty"` // and every later one
	Times  int    `json:"times,omitempty"`  // that many in a row
}

// BadSector: reads of the file at or beyond the offset fail.
type BadSector struct {
	Path   string `json:"path"`
	At     int    `json:"at"`
	Errno  Errno  `json:"errno"`
	Once   bool   `json:"once,omitempty"`   // only the first read that reaches it
	Repair bool   `json:"repair,omitempty"` // unused by the kernel; for oracles
}

// ForeignOp is something another process does to the file system or the
// process table just before the given kernel event.
type ForeignOp struct {
	At    int    `json:"at"` // index of the system call (over all processes)
	Op    string `json:"op"` // write truncate append unlink replace chmod mkdir symlink fifo rename exit quota
	Path  string `json:"path,omitempty"`
	Path2 string `json:"path2,omitempty"`
	Data  Blob   `json:"data,omitempty"`
	N     int    `json:"n,omitempty"`
}

// Kill ends a process (SIGKILL) instead of serving its nth system call.
type Kill struct {
	Proc int `json:"proc"`
	At   int `json:"at"`             // index among the system calls of that process
	Torn int `json:"torn,omitempty"` // if the call is a write, this many bytes get through first
}

// SimProc is an entry of the simulated process table (for kill).
type SimProc struct {
	Pid   int  `json:"pid"`
	Other bool `json:"other,omitempty"` // belongs to another user
	Gone  bool `json:"gone,omitempty"`
}

// Knobs are the rates (per mille) of benign perturbations.
type Knobs struct {
	ShortRead  int `json:"short_read,omitempty"`
	ShortWrite int `json:"short_write,omitempty"`
	Eintr      int `json:"eintr,omitempty"`
	Yield      int `json:"yield,omitempty"`
	Sched      int `json:"sched,omitempty"`  // choice of goroutine
	Switch     int `json:"switch,omitempty"` // choice of process
}

// Scenario is one complete simulated execution: with the code under test it
// determines every event.
type Scenario struct {
	Procs   []ProcSpec  `json:"procs"`
	Files   []FileSpec  `json:"files,omitempty"`
	Quota   *int64      `json:"quota,omitempty"`
	MaxFDs  int         `json:"max_fds,omitempty"` // a process may have that many descriptors (0: 1024)
	Bad     []BadSector `json:"bad,omitempty"`
	Faults  []Fault     `json:"faults,omitempty"`
	Foreign []ForeignOp `json:"foreign,omitempty"`
	Kills   []Kill      `json:"kills,omitempty"`
	Table   []SimProc   `json:"table,omitempty"`
	Knobs   Knobs       `json:"knobs"`
	Seed    uint64      `json:"seed"`
	// Decisions, when UseDecisions is set, replaces the pseudo-random stream
	// (exhausted: 0, the benign default).
	Decisions    []int `json:"decisions,omitempty"`
	UseDecisions bool  `json:"use_decisions,omitempty"`
	MaxEvents    int   `json:"max_events,omitempty"`
	// HeapSeed drives map iteration order and math/rand inside the process.
	MapSeed uint64 `json:"map_seed"`
}

// Clone copies a scenario deeply.
func (s *Scenario) Clone() *Scenario {
	c := *s
	c.Procs = append([]ProcSpec(nil), s.Procs...)
	for i := range c.Procs {
		p := &c.Procs[i]
		p.Args = append([]string(nil), p.Args...)
		p.Env = append([]string(nil), p.Env...)
		p.Stdin = append([]Chunk(nil), p.Stdin...)
	}
	c.Files = append([]FileSpec(nil), s.Files...)
	c.Bad = append([]BadSector(nil), s.Bad...)
	c.Faults = append([]Fault(nil), s.Faults...)
	c.Foreign = append([]ForeignOp(nil), s.Foreign...)
	c.Kills = append([]Kill(nil), s.Kills...)
	c.Table = append([]SimProc(nil), s.Table...)
	c.Decisions = append([]int(nil), s.Decisions...)
	if s.Quota != nil {
		q := *s.Quota
		c.Quota = &q
	}
	return &c
}

// Event is one system call as the simulator served it.
type Event struct {
	Proc  int
	Idx   int // index over all processes
	PIdx  int // index within its process
	Call  string
	Role  string
	Off   int // byte position for reads and writes
	Want  int
	Ret   int64
	Err   Errno
	Fault string // what was injected, "" if nothing
}

func (e Event) String() string {
	s := fmt.Sprintf("#%d p%d %s(%s", e.Idx, e.Proc, e.Call, e.Role)
	if e.Want > 0 || e.Off > 0 {
		s += fmt.Sprintf(" off=%d len=%d", e.Off, e.Want)
	}
	s += ")"
	if e.Err != 0 {
		s += " = " + e.Err.String()
	} else {
		s += fmt.Sprintf(" = %d", e.Ret)
	}
	if e.Fault != "" {
		s += "  <- " + e.Fault
	}
	return s
}

// Quiet is a moment at which a process had nothing to do but wait for input.
type Quiet struct {
	In  int // bytes of standard input delivered
	Out int // bytes written to standard output
	Ev  int
}

// Signal is one kill(2) call of a process under test.
type Signal struct {
	Pid, Sig int
	Err      Errno
}

// ProcResult is what a simulated process did.
type ProcResult struct {
	Stdout, Stderr []byte
	InUsed         int    // bytes of standard input consumed
	Diag           string // written by the Go runtime itself (panics, fatal errors)
	Exit           int    // exit status, or -1
	Signal         int    // signal that ended it, or 0
	Killed         bool   // by a Kill of the scenario
	Started        bool
	Stalled        bool // still waiting for input when the simulation ended it
	StepLimit      bool
	CPULimit       bool
	WallLimit      bool
	Quiet          []Quiet
	Signals        []Signal
	OutLost        bool // a write to standard output failed
	OutFull        bool // a write to standard output was cut short because there was no room
	ReadFailed     []string
	Calls          int
	OpenFDs        []string
}

// Result of one simulated execution.
type Result struct {
	Procs       []ProcResult
	Events      []Event
	Decisions   []int
	FS          *FS
	Initial     map[string]Entry
	Hash        uint64 // over all events and decisions
	SchedHash   uint64 // over the choices of who runs
	Injected    map[string]int
	Unsupported map[string]int
	SimTime     int64 // microseconds
	HookErr     string
	HookEvent   int
}
