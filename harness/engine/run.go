package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"
)

// Prop is one property check.
type Prop struct {
	ID              string
	Rule            string // how cases are made and what makes one non-trivial
	Run             func(t *T)
	Quick, Thorough int         // number of cases
	Fixed           []FixedCase // plain regression cases, run first
	Limit           int         // max choices per case
	Assume          []string
}

// FixedCase is a regression case that needs no generator.
type FixedCase struct {
	Name string
	Run  func(t *T)
}

var props = map[string]*Prop{}

func Register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

// TT is the *testing.T of the worker (needed by synctest).
var TT *testing.T

type outcome struct {
	Status  string   `json:"status"` // pass fail discard harness
	Sig     string   `json:"sig,omitempty"`
	Msg     string   `json:"msg"`
	Desc    string   `json:"desc,omitempty"`
	Choices []uint64 `json:"choices,omitempty"`

	nontrivial bool
	labels     map[string]int
}

// FramePath is the part of a function name that marks code under test.
const FramePath = "github.com/browles/drip/"

// PanicSig gives a stable signature and a trimmed trace for a panic value
// and stack; under is true when code under test is on the stack.
func PanicSig(r any, stack string) (sig, msg string, under bool) {
	var frames []string
	lines := strings.Split(stack, "\n")
	// Skip everything above the panic call.
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") {
			start = i
		}
	}
	where := ""
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.Contains(l, FramePath) {
			under = true
			if where == "" {
				where = l
				if i := strings.LastIndexByte(where, '('); i > 0 {
					where = where[:i]
				}
				where = where[strings.Index(where, FramePath)+len(FramePath):]
			}
			frames = append(frames, l)
		}
	}
	if len(frames) > 6 {
		frames = frames[:6]
	}
	return "panic in " + where, fmt.Sprintf("panic: %v at %s", r, strings.Join(frames, " < ")), under
}

// usedAt is the line of the check in which a panic arose.
func usedAt(stack string) string {
	lines := strings.Split(stack, "\n")
	for i := len(lines) - 1; i >= 0; i-- {
		if strings.HasPrefix(lines[i], "panic(") {
			lines = lines[i:]
			break
		}
	}
	for _, l := range lines {
		if strings.Contains(l, "_test.go:") {
			return strings.TrimSpace(l[strings.LastIndex(l, "/")+1:])
		}
	}
	return "?"
}

func runCase(p *Prop, t *T) (o outcome) { return runFunc(p.Run, t) }

func runFixed(f FixedCase, t *T) outcome {
	t.Notef("fixed case %s", f.Name)
	return runFunc(f.Run, t)
}

func runFunc(f func(t *T), t *T) (o outcome) {
	defer func() {
		o.Choices = t.rec
		o.Desc = t.Describe()
		o.nontrivial = t.nontrivial
		o.labels = t.labels
		r := recover()
		switch r := r.(type) {
		case nil:
		case failure:
			o.Status, o.Sig, o.Msg = "fail", r.sig, r.msg
		case discard:
			o.Status, o.Msg = "discard", r.why
		case harnessError:
			o.Status, o.Msg = "harness", r.msg
		default:
			rv, stack := any(r), string(debug.Stack())
			if b, ok := r.(bubblePanic); ok {
				rv, stack = b.r, b.stack
			}
			sig, msg, under := PanicSig(rv, stack)
			if under {
				o.Status, o.Sig, o.Msg = "fail", sig, msg
			} else if e, ok := rv.(runtime.Error); ok {
				// The check tripped over what it was given: a nil result without an error, say.
				o.Status, o.Sig, o.Msg = "fail", "result that cannot be used", fmt.Sprintf("%v at %s", e, usedAt(stack))
			} else {
				o.Status, o.Msg = "harness", fmt.Sprintf("panic: %v\n%s", rv, stack)
			}
		}
	}()
	f(t)
	o.Status = "pass"
	return
}

func newT(p *Prop) *T {
	l := p.Limit
	if l == 0 {
		l = 20000
	}
	return &T{labels: map[string]int{}, limit: l}
}

func caseRNG(seed uint64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", id, idx)
	return rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()))
}

type config struct {
	Mode     string   `json:"mode"`
	Prop     string   `json:"prop"`
	Seed     uint64   `json:"seed"`
	Start    int      `json:"start"`
	Stride   int      `json:"stride"`
	Count    int      `json:"count"` // 0: the property's own count for the tier
	Tier     string   `json:"tier"`
	BudgetS  float64  `json:"budget_s"` // stop generating after this long
	Progress string   `json:"progress"`
	Result   string   `json:"result"`
	Known    []string `json:"known"`
}

type result struct {
	Evaluations int               `json:"evaluations"`
	Discards    int               `json:"discards"`
	Labels      map[string]int    `json:"labels"`
	Hashes      []uint64          `json:"hashes"`
	Samples     []string          `json:"samples"`
	Known       map[string]int    `json:"known"`
	KnownMsg    map[string]string `json:"known_msg"`
	Fail        *outcome          `json:"fail"`
	FailIndex   int               `json:"fail_index"`
	Rule        string            `json:"rule"`
	Assume      []string          `json:"assume"`
	WallS       float64           `json:"wall_s"`
	Fixed       int               `json:"fixed"`
	FailFixed   string            `json:"fail_fixed,omitempty"`
	Planned     int               `json:"planned"`
	CutShort    bool              `json:"cut_short"`
}

// maxHashes bounds the memory used for counting distinct cases; beyond it the
// count is a lower bound.
const maxHashes = 400000

func hashChoices(c []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range c {
		for k := 0; k < 8; k++ {
			h ^= v & 0xff
			h *= 1099511628211
			v >>= 8
		}
	}
	return h
}

// Worker is called from the test binary's only test.
func Worker(tt *testing.T) {
	TT = tt
	cfgs := os.Getenv("VERIF_WORKER")
	if cfgs == "" {
		tt.Skip("run through /verif/run.py")
	}
	var c config
	if err := json.Unmarshal([]byte(cfgs), &c); err != nil {
		tt.Fatal(err)
	}
	p := props[c.Prop]
	switch c.Mode {
	case "info":
		type info struct {
			Quick, Thorough int
			Rule            string
		}
		m := map[string]info{}
		for id, p := range props {
			m[id] = info{p.Quick, p.Thorough, p.Rule}
		}
		b, _ := json.Marshal(m)
		os.WriteFile(c.Result, b, 0o644)
	case "run":
		if p == nil {
			tt.Fatal("unknown property")
		}
		run(p, &c)
	case "serve":
		if p == nil {
			tt.Fatal("unknown property")
		}
		serve(p)
	default:
		tt.Fatal("bad mode")
	}
}

func run(p *Prop, c *config) {
	begin := time.Now()
	res := &result{Labels: map[string]int{}, Known: map[string]int{}, KnownMsg: map[string]string{}, Rule: p.Rule, Assume: p.Assume, FailIndex: -1}
	known := map[string]bool{}
	for _, k := range c.Known {
		known[k] = true
	}
	prog, err := os.OpenFile(c.Progress, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	hashes := map[uint64]struct{}{}
	var byteSampled int
	count := c.Count
	if count == 0 {
		count = p.Quick
		if c.Tier == "thorough" {
			count = p.Thorough
		}
	}
	res.Planned = count
	if c.Start == 0 {
		for i, f := range p.Fixed {
			prog.WriteAt([]byte(fmt.Sprintf("%-20d", -1-i)), 0)
			t := newT(p)
			t.replay = []uint64{}
			o := runFixed(f, t)
			res.Fixed++
			if o.Status == "fail" && known[o.Sig] {
				res.Known[o.Sig]++
				res.KnownMsg[o.Sig] = o.Msg
				continue
			}
			if o.Status != "pass" {
				res.Fail, res.FailIndex, res.FailFixed = &o, -1-i, f.Name
				count = 0
				break
			}
		}
	}
	for i := c.Start; i < count; i += c.Stride {
		if c.BudgetS > 0 && time.Since(begin).Seconds() > c.BudgetS {
			res.CutShort = true
			break
		}
		prog.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		t := newT(p)
		t.rng = caseRNG(c.Seed, p.ID, i)
		o := runCase(p, t)
		for k, v := range o.labels {
			res.Labels[k] += v
		}
		if o.Status == "discard" {
			res.Discards++
			continue
		}
		res.Evaluations++
		if o.Status == "fail" && known[o.Sig] {
			res.Known[o.Sig]++
			if res.KnownMsg[o.Sig] == "" {
				res.KnownMsg[o.Sig] = o.Msg
			}
			continue
		}
		if o.Status != "pass" {
			res.Fail, res.FailIndex = &o, i
			break
		}
		if o.nontrivial {
			if len(hashes) < maxHashes {
				hashes[hashChoices(o.Choices)] = struct{}{}
			}
			if len(res.Samples) < 3 && o.Desc != "" && byteSampled < 6000 {
				s := o.Desc
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				byteSampled += len(s)
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, s))
			}
		}
	}
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	res.WallS = time.Since(begin).Seconds()
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.Result+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(c.Result+".tmp", c.Result)
}

// serve replays choice sequences read from fd 3 and answers on fd 4.
func serve(p *Prop) {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			Choices []uint64 `json:"choices"`
			Index   *int     `json:"index"`
			Seed    uint64   `json:"seed"`
			Fixed   string   `json:"fixed"`
			Trace   string   `json:"trace"`
		}
		if err := json.Unmarshal(line, &req); err != nil {
			panic(err)
		}
		t := newT(p)
		if req.Trace != "" {
			t.trace, _ = os.Create(req.Trace)
		}
		var o outcome
		if req.Fixed != "" {
			o = outcome{Status: "harness", Msg: "no such fixed case"}
			for _, f := range p.Fixed {
				if f.Name == req.Fixed {
					o = runFixed(f, t)
				}
			}
		} else {
			if req.Index != nil {
				t.rng = caseRNG(req.Seed, p.ID, *req.Index)
			} else {
				t.replay = req.Choices
			}
			o = runCase(p, t)
		}
		if t.trace != nil {
			t.trace.Close()
		}
		b, _ := json.Marshal(o)
		out.Write(append(b, '\n'))
		runtime.GC()
	}
}
