package core

import (
	"verifsim/simrt"
)

// Plan is one complete simulated run: everything needed to repeat it.
type Plan struct {
	Prop     string   `json:"prop"`
	Profile  string   `json:"profile"`
	Seed     uint64   `json:"seed"`
	DataSeed uint64   `json:"data_seed"`
	DataSize int      `json:"data_size"`
	Cfg      Cfg      `json:"cfg"`
	WallNS   int64    `json:"wall_ns,omitempty"` // how late it is when the run begins
	Shared   []Use    `json:"shared,omitempty"`  // scopes built once and used by all clients
	Clients  []Client `json:"clients"`
	// Schedule is nil when the scheduler draws from Seed.
	Schedule  *[]simrt.Decision `json:"schedule,omitempty"`
	SchedMean int64             `json:"sched_mean"`
	SchedShy  int               `json:"sched_shy,omitempty"`
}

// Cfg is the swarm configuration of a run.
type Cfg struct {
	PrepareStmt bool  `json:"prepare_stmt,omitempty"`
	SkipTx      bool  `json:"skip_default_tx,omitempty"`
	QueryFields bool  `json:"query_fields,omitempty"`
	PG          bool  `json:"pg,omitempty"` // gorm quotes and numbers parameters like for Postgres
	MaxOpen     int   `json:"max_open,omitempty"`
	MaxIdle     int   `json:"max_idle,omitempty"`
	LatencyNS   int64 `json:"latency_ns,omitempty"`
	CastOff     bool  `json:"cast_off,omitempty"`
}

type Client struct {
	Ops []Op `json:"ops"`
}

// Use is one attachment of filter text.
type Use struct {
	// Via is apply, list or wire, or a condition of its own made from a second
	// handle: group and gscope (and), orgroup (id = 1 or), not, sub (in a sub-query)
	Via    string   `json:"via"`
	Texts  []string `json:"texts"`
	Shared int      `json:"shared,omitempty"` // 1-based index into Plan.Shared
	Now    bool     `json:"now,omitempty"`    // the scope of apply or list is called with the handle, not given to Scopes
}

// Cond is another condition of the caller.
type Cond struct {
	K   string `json:"k"` // tenant age_or group not map struct; key: the model value has it as its id
	N   int64  `json:"n"`
	Pos int    `json:"pos"` // 0 before the filters, 1 after
}

// Fault is injected at the n-th driver call of an operation.
type Fault struct {
	Call int    `json:"call"`
	Kind string `json:"kind"`
	Row  int    `json:"row,omitempty"`
}

// Op is one client operation.
type Op struct {
	Kind  string `json:"kind"`
	Model string `json:"model,omitempty"`
	Uses  []Use  `json:"uses,omitempty"`
	Conds []Cond `json:"conds,omitempty"`

	Handle    string   `json:"handle,omitempty"` // "", sess, model, where, prep, dry
	Unscoped  bool     `json:"unscoped,omitempty"`
	Order     string   `json:"order,omitempty"` // "", asc, desc
	Limit     int      `json:"limit,omitempty"`
	Offset    int      `json:"offset,omitempty"`
	Select    []string `json:"select,omitempty"`
	Distinct  bool     `json:"distinct,omitempty"`
	Joins     []string `json:"joins,omitempty"` // the caller's own joins: relation, inner:relation, raw
	JoinLate  bool     `json:"join_late,omitempty"`
	Alias     bool     `json:"alias,omitempty"`    // query the table under another name
	NoModel   string   `json:"no_model,omitempty"` // none: only a table name, bad: a model that is no struct
	Rel       string   `json:"rel,omitempty"`      // relation read by preload, assoc, assoccount
	Parent    int64    `json:"parent,omitempty"`
	Sess      []string `json:"sess,omitempty"` // session options of the caller
	PreErr    bool     `json:"pre_err,omitempty"`
	PauseNS   int64    `json:"pause_ns,omitempty"` // the client waits before
	DueNS     int64    `json:"due_ns,omitempty"`   // deadline of the context, from the start of the operation
	Fork      string   `json:"fork,omitempty"`     // filter of another query built from the same handle
	Set       int64    `json:"set,omitempty"`
	How       string   `json:"how,omitempty"` // other ways to write: columns, column, quiet, select, returning, slice
	Ctx       bool     `json:"ctx,omitempty"`
	PreCancel bool     `json:"pre_cancel,omitempty"`

	// transactions
	Sub    []Op   `json:"sub,omitempty"`
	End    string `json:"end,omitempty"` // commit rollback error panic
	Manual bool   `json:"manual,omitempty"`
	Ignore bool   `json:"ignore,omitempty"` // go on after a failed part

	// ent
	Compose string `json:"compose,omitempty"`
	Dialect string `json:"dialect,omitempty"`
	Schema  bool   `json:"schema,omitempty"` // the tables are in a schema other than the default one
	Embed   bool   `json:"embed,omitempty"`  // use SQLBuilder
	NoCast  bool   `json:"no_cast,omitempty"`
	Repeat  int    `json:"repeat,omitempty"`
	Many    int    `json:"many,omitempty"`  // other texts in between
	Reuse   string `json:"reuse,omitempty"` // text an ent builder was used for before

	// library-only operations
	Text   string   `json:"text,omitempty"`
	Texts  []string `json:"texts,omitempty"`
	Cbs    []string `json:"cbs,omitempty"`     // visitor callbacks supplied
	Deep   bool     `json:"deep,omitempty"`    // visitor callbacks walk on below their node
	Ended  bool     `json:"ended,omitempty"`   // the visitor's context is cancelled already
	FailAt int      `json:"fail_at,omitempty"` // visitor callback that fails (1-based)
	FailBy string   `json:"fail_by,omitempty"` // how it fails: eof canceled deadline wrapped nested, or an error of its own
	Share  int      `json:"share,omitempty"`   // shared visitor/tree slot (1-based)
	Mutate bool     `json:"mutate,omitempty"`

	Faults []Fault `json:"faults,omitempty"`
}
