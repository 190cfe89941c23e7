package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	gjs "github.com/xeipuuv/gojsonschema"

	"verifsim/gen"
	"verifsim/model"
	"verifsim/plan"
	"verifsim/rt"
)

// C15: stream loaders.

var errStream = errors.New("simulated stream fault")

// streamErrs are what a faulty stream returns. The one that is used must come
// back as it is.
var streamErrs = []error{errStream, errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, fmt.Errorf("stream lost: %w", io.EOF)}

// underReader is the caller's stream: data in pieces, then an end.
type underReader struct {
	r     *gen.R
	data  []byte
	pos   int
	fault int  // offset of a fault, -1 none
	once  bool // the fault passes
	ferr  error
	end   error
	calls int
	lastN int
	lastE error
	done  bool
}

func (u *underReader) Read(p []byte) (n int, err error) {
	rt.Y(siteIO)
	u.calls++
	defer func() { u.lastN, u.lastE = n, err }()
	limit := len(u.data)
	end := u.end
	if u.fault >= 0 && u.fault < limit {
		limit, end = u.fault, u.ferr
	}
	if u.pos >= limit {
		if u.once {
			u.fault = -1
		}
		u.done = true
		return 0, end
	}
	if u.r.P(8) {
		return 0, nil
	}
	n = 1 + u.r.N(9)
	if u.r.P(20) {
		n = len(p)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > limit-u.pos {
		n = limit - u.pos
	}
	copy(p, u.data[u.pos:u.pos+n])
	// bytes beyond n may be used as scratch space
	for i := n; i < len(p) && u.r.P(50); i++ {
		p[i] = '#'
	}
	u.pos += n
	if u.pos >= limit && u.r.P(50) {
		if u.once {
			u.fault = -1
		}
		u.done = true
		return n, end
	}
	return n, nil
}

// underWriter is the caller's sink.
type underWriter struct {
	r     *gen.R
	got   []byte
	fault int // absolute offset at which one write fails
	fired bool
	ferr  error
	how   string // full: the failing write is taken completely; many: any write may fail
	calls int
	lastN int
	lastE error
}

func (u *underWriter) Write(p []byte) (n int, err error) {
	rt.Y(siteIO)
	u.calls++
	defer func() { u.lastN, u.lastE = n, err }()
	if u.how == "many" && len(p) > 0 && u.r.P(25) {
		n = u.r.N(len(p) + 1)
		u.got = append(u.got, p[:n]...)
		return n, u.ferr
	}
	if u.fault >= 0 && !u.fired && len(u.got)+len(p) > u.fault {
		u.fired = true
		if u.how == "full" {
			u.got = append(u.got, p...)
			return len(p), u.ferr
		}
		n = u.fault - len(u.got)
		if n < 0 {
			n = 0
		}
		u.got = append(u.got, p[:n]...)
		return n, u.ferr
	}
	u.got = append(u.got, p...)
	return len(p), nil
}

func (e *env) stream(op *plan.Op, r *OpRes) {
	r.Nil = true
	rng := gen.New(uint64(op.ID) + 1)
	var all []byte
	var ends []int
	for k, d := range op.Ds {
		if k > 0 {
			all = append(all, []string{"", "\n", " \t\n"}[rng.N(3)]...)
		}
		all = append(all, e.docs[d]...)
		ends = append(ends, len(all))
	}
	var passed []byte
	look := func(ld gjs.JSONLoader) { // asking what the loader is changes nothing
		if rng.P(20) {
			ld.JsonSource()
		}
		if rng.P(20) {
			ld.JsonReference()
			ld.LoaderFactory()
		}
	}
	check := func(ld gjs.JSONLoader, k int, complete bool) bool {
		look(ld)
		v, err := ld.LoadJSON()
		want := model.MustDecode(e.docs[op.Ds[k]])
		if complete {
			if err != nil {
				r.Bad = fmt.Sprintf("document %d has passed completely but loading it failed: %v", k, err)
			} else if gen.Text(v) != gen.Text(want) {
				r.Bad = fmt.Sprintf("document %d: loaded %s instead of %s", k, short(gen.Text(v)), short(e.docs[op.Ds[k]]))
			}
		} else if err == nil {
			r.Bad = fmt.Sprintf("document %d is incomplete (%q passed) but loading it gave %s", k, short(string(passed)), short(gen.Text(v)))
		}
		return r.Bad == ""
	}
	early := len(all) + 1 // load prematurely here and stop
	if op.S > 0 {
		early = op.S - 1
	}
	lastDoc := func(n int) int {
		for k, x := range ends {
			if n < x {
				return k
			}
		}
		return len(ends)
	}
	incomplete := func(ld gjs.JSONLoader) {
		n := len(passed)
		k := lastDoc(n)
		if k >= len(ends) {
			return
		}
		start := 0
		if k > 0 {
			start = ends[k-1]
		}
		if n < start {
			n = start
		}
		if _, err := model.Decode(string(all[start:n])); err == nil {
			return // nothing left to tell
		}
		check(ld, k, false)
	}
	next := 0
	if op.Via == "reader" {
		ferr := streamErrs[rng.N(len(streamErrs))]
		u := &underReader{r: rng.Fork(), data: all, fault: op.N, end: io.EOF, ferr: ferr, once: op.Arg == "retry"}
		if op.Name == "enderr" {
			u.end = ferr
		}
		ld, rd := gjs.NewReaderLoader(u)
		for steps := 0; steps < 100000; steps++ {
			lim := len(all) + 8 - len(passed)
			if next < len(ends) {
				lim = ends[next] - len(passed) // stop exactly at the end of a document
			}
			if early-len(passed) > 0 && early-len(passed) < lim {
				lim = early - len(passed)
			}
			sz := 1 + rng.N(12)
			if rng.P(15) {
				sz = lim
			}
			if sz > lim || sz < 1 {
				sz = lim
			}
			if sz < 1 {
				sz = 1
			}
			if rng.P(3) {
				sz = 0
			}
			if rng.P(10) {
				look(ld)
			}
			p := make([]byte, sz)
			before, faulty := u.calls, u.fault >= 0 && u.fault < len(all)
			var n int
			var err error
			if wt, ok := rd.(io.WriterTo); ok && next == len(ends)-1 && early > len(all) && rng.P(30) {
				// what io.Copy does with a reader that knows how to write itself
				var b bytes.Buffer
				_, err = wt.WriteTo(&b)
				p, n = b.Bytes(), b.Len()
				if err == nil {
					err = io.EOF
				}
			} else {
				n, err = rd.Read(p)
			}
			if n < 0 || n > len(p) {
				r.Bad = fmt.Sprintf("Read of %d bytes returned count %d", len(p), n)
				return
			}
			if u.calls == before+1 && (n != u.lastN || err != u.lastE) {
				r.Bad = fmt.Sprintf("Read returned (%d, %v), the underlying stream returned (%d, %v)", n, err, u.lastN, u.lastE)
				return
			}
			passed = append(passed, p[:n]...)
			if !bytes.HasPrefix(all, passed) {
				r.Bad = fmt.Sprintf("bytes changed on their way: %q", short(string(passed)))
				return
			}
			if u.pos != len(passed) {
				r.Bad = fmt.Sprintf("%d bytes were taken from the underlying stream, %d were delivered", u.pos, len(passed))
				return
			}
			if len(passed) == early && next < len(ends) && early < ends[next] {
				incomplete(ld)
				return
			}
			if next < len(ends) && len(passed) == ends[next] {
				if !check(ld, next, true) {
					return
				}
				next++
			}
			if err != nil {
				want := u.end
				if faulty {
					want = u.ferr
				}
				if err != want {
					r.Bad = fmt.Sprintf("Read returned error %v, the underlying stream's is %v", err, want)
					return
				}
				if !u.done {
					r.Bad = "an error was returned before the underlying stream's"
					return
				}
				if u.once && faulty { // the caller reads on
					u.done = false
					continue
				}
				if next < len(ends) {
					incomplete(ld)
				}
				return
			}
		}
		r.Bad = "the stream never ended"
		return
	}
	u := &underWriter{r: rng.Fork(), fault: op.N, how: op.Name, ferr: streamErrs[rng.N(len(streamErrs))]}
	ld, w := gjs.NewWriterLoader(u)
	for len(passed) < len(all) {
		lim := len(all) - len(passed)
		if next < len(ends) {
			lim = ends[next] - len(passed)
		}
		if early-len(passed) > 0 && early-len(passed) < lim {
			lim = early - len(passed)
		}
		sz := 1 + rng.N(12)
		if rng.P(15) || sz > lim {
			sz = lim
		}
		if rng.P(4) {
			sz = 0
		}
		p := append([]byte(nil), all[len(passed):len(passed)+sz]...)
		if rng.P(10) {
			look(ld)
		}
		before := u.calls
		var n int
		var err error
		switch how := rng.N(100); {
		case how < 12:
			n, err = io.WriteString(w, string(p))
		case how < 18:
			if rf, ok := w.(io.ReaderFrom); ok { // what io.Copy does
				var m int64
				m, err = rf.ReadFrom(bytes.NewReader(p))
				n = int(m)
			} else {
				n, err = w.Write(p)
			}
		default:
			n, err = w.Write(p)
		}
		if !bytes.Equal(p, all[len(passed):len(passed)+sz]) {
			r.Bad = "Write modified its argument"
			return
		}
		if u.calls == before+1 && (n != u.lastN || err != u.lastE) {
			r.Bad = fmt.Sprintf("Write returned (%d, %v), the underlying stream returned (%d, %v)", n, err, u.lastN, u.lastE)
			return
		}
		if n < 0 || n > sz || (err == nil && n != sz) {
			r.Bad = fmt.Sprintf("Write of %d bytes returned (%d, %v)", sz, n, err)
			return
		}
		for i := range p {
			p[i] = 'X' // the caller may reuse its buffer
		}
		passed = append(passed, all[len(passed):len(passed)+n]...)
		if !bytes.Equal(u.got, passed) {
			r.Bad = fmt.Sprintf("the underlying stream got %q, %q was written", short(string(u.got)), short(string(passed)))
			return
		}
		if err != nil {
			if err != u.ferr {
				r.Bad = fmt.Sprintf("Write returned error %v instead of the underlying stream's", err)
				return
			}
			if op.Arg != "retry" {
				if next < len(ends) && len(passed) < ends[next] {
					incomplete(ld)
				}
				return
			}
			// the caller carries on with the rest
		}
		if len(passed) == early && next < len(ends) && early < ends[next] {
			incomplete(ld)
			return
		}
		if next < len(ends) && len(passed) == ends[next] {
			if !check(ld, next, true) {
				return
			}
			next++
		}
	}
}

func init() {
	register(&Scenario{Prop: "C15", Kind: "stream", Weight: 1, Gen: genStream, Check: checkStream})
}

func genStream(r *gen.R, p *plan.Plan) {
	sched(r, p)
	nt := 1 + r.N(3)
	for t := 0; t < nt; t++ {
		var ops []plan.Op
		for k := 1 + r.N(2); k > 0; k-- {
			op := plan.Op{K: "stream", Via: r.S("reader", "writer"), ID: r.N(1 << 30), N: -1}
			total := 0
			for d := 1 + r.N(3); d > 0; d-- {
				g := &gen.G{R: r}
				var s string
				for s == "" || s[0] == '-' || (s[0] >= '0' && s[0] <= '9') {
					if r.P(40) {
						s = schemaText(r, pickDraft(r), nil, 2)
					} else {
						s = gen.Text(g.Value(3))
					}
				}
				if r.P(25) {
					s = r.S(" ", "\n", "\t ") + s
				}
				if r.P(5) {
					s = "[\"" + string(bytes.Repeat([]byte("abcdefgh"), 100+r.N(1200))) + "\"," + s + "]"
				}
				if r.N(250) == 0 { // more than any buffer on the way holds
					s = "[\"" + string(bytes.Repeat([]byte("abcdefgh"), 8000+r.N(9000))) + "\"," + s + "]"
				}
				op.Ds = append(op.Ds, addDoc(p, s))
				total += len(s)
			}
			switch r.N(4) {
			case 0:
				op.N = r.N(total + 1)
				if r.P(60) {
					op.Arg = "retry"
				}
			case 1:
				op.S = 1 + r.N(total+1)
			}
			if r.P(20) && op.Via == "reader" {
				op.Name = "enderr"
			}
			if op.Arg == "retry" && op.Via == "writer" {
				op.Name = r.S("", "full", "many")
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func checkStream(p *plan.Plan) (*plan.Violation, string) {
	for _, t := range p.Tasks {
		for _, op := range t {
			for _, d := range op.Ds {
				if d >= len(p.Docs) {
					return nil, "bad plan"
				}
				v, err := model.Decode(p.Docs[d])
				if err != nil {
					return nil, "bad plan"
				}
				switch v.(type) {
				case map[string]interface{}, []interface{}, string, bool, nil:
				default:
					return nil, "number document"
				}
			}
		}
	}
	h := Exec(p, Opts{})
	if s := h.skip(); s != "" {
		return nil, s
	}
	if v := bad(p, h); v != nil {
		return v, ""
	}
	for i, t := range h.Tasks {
		for j, r := range t {
			if r.Bad != "" {
				return viol(p, "stream", "task %d stream %d (%s): %s", i, j, p.Tasks[i][j].Via, r.Bad), ""
			}
			op := &p.Tasks[i][j]
			if op.N >= 0 {
				stats.Faults["stream-"+op.Via]++
			}
			probe("stream-" + op.Via)
		}
	}
	return nil, ""
}
