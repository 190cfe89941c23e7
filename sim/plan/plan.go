// Package plan holds the complete description of one simulated execution.
package plan

// Plan decides one run: documents, operations, faults, schedule, map orders.
type Plan struct {
	Prop    string         `json:"prop"`
	Kind    string         `json:"kind,omitempty"`
	Seed    uint64         `json:"seed"`
	Sched   Sched          `json:"sched"`
	Loaders []LoaderSpec   `json:"loaders,omitempty"`
	Res     []Res          `json:"resources,omitempty"`
	Docs    []string       `json:"docs,omitempty"`
	Formats []string       `json:"formats,omitempty"`
	Names   []string       `json:"names,omitempty"` // formats in question (C12)
	Pre     []Op           `json:"pre,omitempty"`
	Setup   []Op           `json:"setup,omitempty"`
	Tasks   [][]Op         `json:"tasks,omitempty"`
	After   []Op           `json:"after,omitempty"`
	Faults  []Fault        `json:"faults,omitempty"`
	Calls   []Call         `json:"calls,omitempty"`
	Locale  bool           `json:"locale,omitempty"`
	N       map[string]int `json:"n,omitempty"`
}

// Call is what a callback does when the library invokes it. Key: fmt:NAME,
// get:URL, open:URL, read:URL, close:URL, load:DOC, new:URL, locale, tmpl.
type Call struct {
	Key   string `json:"key"`
	From  int    `json:"from,omitempty"`  // first firing
	Times int    `json:"times,omitempty"` // 0 = all
	Act   string `json:"act,omitempty"`   // "", panic, err
	Sub   []Op   `json:"sub,omitempty"`
}

// Sched describes scheduling and map-order decisions.
type Sched struct {
	Serial   bool     `json:"serial,omitempty"` // tasks one after the other
	Seed     uint64   `json:"seed"`
	Gap      int      `json:"gap"`
	Hot      int      `json:"hot,omitempty"`
	Explicit bool     `json:"explicit,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
	MapSeed  uint64   `json:"mapseed"`
}

// Switch: at global step S run task T.
type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"t"`
}

// LoaderSpec configures a SchemaLoader. Draft 0 is hybrid.
type LoaderSpec struct {
	Auto     bool `json:"auto"`
	Draft    int  `json:"draft"`
	Validate bool `json:"validate"`
}

// Res is an external resource. Store: http, fs<N>, os.
type Res struct {
	URL      string `json:"url"`
	Store    string `json:"store"`
	Body     string `json:"body"`
	Redirect string `json:"redirect,omitempty"`
	Code     int    `json:"code,omitempty"`
	Chunk    int    `json:"chunk,omitempty"`
	Slow     int    `json:"slow,omitempty"`
}

// Fault hits the Nth attempt (0-based; -1 = all) at URL.
type Fault struct {
	Kind string `json:"kind"`
	URL  string `json:"url"`
	Nth  int    `json:"nth"`
	Off  int    `json:"off"`
	Arg  int    `json:"arg,omitempty"`
}

// Op is one call on the library.
type Op struct {
	K    string `json:"k"`
	L    int    `json:"l,omitempty"`
	S    int    `json:"s,omitempty"`
	D    int    `json:"d,omitempty"`
	Ds   []int  `json:"ds,omitempty"`
	URL  string `json:"url,omitempty"`
	Via  string `json:"via,omitempty"`
	Name string `json:"name,omitempty"`
	ID   int    `json:"id,omitempty"`
	Arg  string `json:"arg,omitempty"`
	N    int    `json:"n,omitempty"`
	Sub  []Op   `json:"sub,omitempty"`
}

// Violation of a property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Record is what a worker reports for one run, and what a replay file holds.
type Record struct {
	Plan      *Plan      `json:"plan"`
	Violation *Violation `json:"violation"`
	Run       int64      `json:"run"`
	Hash      uint64     `json:"hash"`
	Trace     []string   `json:"trace,omitempty"`
	Switches  []Switch   `json:"switches,omitempty"`
	Report    string     `json:"report,omitempty"`
}

// Stats aggregates what a worker covered.
type Stats struct {
	Runs       int64            `json:"runs"`
	Skipped    int64            `json:"skipped"`
	Execs      int64            `json:"execs"`
	Ops        int64            `json:"ops"`
	Steps      int64            `json:"steps"`
	Preempts   int64            `json:"preempts"`
	MapIters   int64            `json:"mapiters"`
	MapPerms   int64            `json:"mapperms"`
	SimNS      int64            `json:"simns"`
	Pairs      int              `json:"pairs"`
	Sites      []int            `json:"sites"`
	SiteTotal  int              `json:"site_total"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Hashes     []uint64         `json:"-"`
	Samples    []string         `json:"samples"`
	RunHash    uint64           `json:"runhash"`
	SkipWhy    map[string]int64 `json:"skipwhy"`
	Nontrivial int64            `json:"nontrivial"`
}
