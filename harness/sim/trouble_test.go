package sim

import (
	"fmt"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"dripverif/engine"
	shimos "dripverif/shim/os"
)

func init() {
	engine.Register(&engine.Prop{ID: "C34", Quick: 12000, Thorough: 250000, Limit: 20000, Run: c34,
		Rule: "one client session in virtual time with one to four honest peers that come back when they are dropped, while the disk fails for stretches of time (every operation, some, or those of one kind, with EIO, ENOSPC or EACCES, writes partly done), or the process dies at a random file-system operation, or both; then a second session over the same directories on a sound disk. The first one, if it lives, must have every piece once the disk works again; the second one must not fetch what the first had announced, and finish with exactly the torrent's files; non-trivial: an operation failed or the process died",
		Assume: []string{
			"a crash is the death of the process: what was written before stays written (no loss of the page cache)",
			"the disk works while a session starts; peers that the client drops come back by themselves or stay listed by the tracker",
			"goroutines of the client switch at lock, file, channel, network and timer operations and at generated pauses; the interleaving within those bounds is whatever the scheduler does",
		}})
}

// outage is a stretch of time in which the disk fails.
type outage struct {
	span
	one  int    // in so many operations
	kind string // of operations, "" all
	err  error
	part int
}

func c34(t *engine.T) {
	sw := genSwarm(t, "C34")
	var outs []outage
	crash := 0
	mode := t.Weighted(4, 3, 1)
	if mode != 1 {
		at := time.Duration(0)
		for range t.Range(1, 4) {
			at += Durations(t, 10*time.Second)
			o := outage{span: span{at, time.Duration(1+t.N(30000)) * time.Millisecond}, one: Pick(t, 1, 2, 5, 20)}
			o.kind = Pick(t, "", "", "rename", "create", "write", "open", "read", "remove", "mkdir", "close", "stat", "accept")
			o.err = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[t.N(3)]
			o.part = Pick(t, 0, 100, 255)
			if o.kind == "accept" {
				o.err = []error{syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM}[t.N(4)]
			}
			outs = append(outs, o)
			t.Notef("from %v for %v one in %d operations %q fails: %v", o.at, o.dur, o.one, o.kind, o.err)
			at += o.dur
		}
		sw.settled = max(sw.settled, at)
	}
	if mode != 0 {
		blocks := 0
		for i := range sw.l.pieces() {
			blocks += sw.l.blocks(i)
		}
		crash = 1 + t.N(6*blocks+8*sw.l.pieces()+12)
		t.Notef("the process dies at operation %d", crash)
	}
	part := Pick(t, 0, 128, 255, 256)
	rng := engine.Fill(t.Choice(1<<30), 4096)
	withWorld(t, func(w *world) {
		engine.Bubble(func() {
			preload(t, w, sw.l, sw.have)
			fs := w.newFS()
			var began atomic.Int64
			n := 0
			fs.Inject = func(_ int, op shimos.Op) (shimos.Fault, bool) {
				b := began.Load()
				if b == 0 {
					return shimos.Fault{}, false
				}
				at := time.Since(epoch) - time.Duration(b)
				for _, o := range outs {
					if at < o.at || at >= o.at+o.dur || o.kind == "accept" || o.kind != "" && o.kind != op.Kind {
						continue
					}
					if n++; int(rng[n%len(rng)])%o.one == 0 {
						return shimos.Fault{Err: o.err, Part: o.part}, true
					}
				}
				return shimos.Fault{}, false
			}
			fs.CrashAt, fs.CrashPart = crash, part
			first := newSession(t, "C34", w, sw.l, sw.conf)
			for _, o := range outs {
				if o.kind != "accept" {
					continue
				}
				first.net.AcceptErr = func() error {
					at := time.Since(epoch) - time.Duration(began.Load())
					for _, o := range outs {
						if o.kind == "accept" && at >= o.at && at < o.at+o.dur {
							first.label("no connection accepted")
							return o.err
						}
					}
					return nil
				}
			}
			announced, when := sw.first(first, &began)
			second := newSession(t, "C34", w, sw.l, sw.conf)
			second.spare = announced
			defer second.end()
			sw.second(second, when)
		})
	})
}

// first plays the session in trouble, and tells what it has announced.
func (sw *swarm) first(s *session, began *atomic.Int64) (map[int]bool, string) {
	t := s.t
	defer s.end()
	sw.start(s)
	for !s.started() && !s.returned() {
		time.Sleep(time.Millisecond)
	}
	began.Store(int64(max(1, time.Since(epoch))))
	hurt := false
	over := s.until(sw.settled+sw.limit, 100*time.Millisecond, func() bool {
		hurt = hurt || s.w.fs.Faults() > 0 || s.w.fs.Crashed()
		return s.w.fs.Crashed() || s.returned() || s.complete() && time.Since(epoch) > sw.settled
	})
	when := fmt.Sprintf("after %d operations that failed", s.w.fs.Faults())
	if s.w.fs.Crashed() {
		when += ", and the death of the process"
		t.Label("process died")
	} else if s.returned() {
		t.Failf("session ended by itself", "%v", s.startErr)
	}
	s.check()
	if hurt {
		t.NonTrivial()
	}
	t.LabelIf(s.w.fs.Faults() > 0, "disk failed")
	if !over {
		var state []string
		for i := range sw.l.pieces() {
			if !s.has(i) {
				state = append(state, fmt.Sprint(i))
			}
		}
		t.Failf("download does not go on after the disk has recovered", "pieces %s still missing at %v%s", strings.Join(state, ","), s.sinceStart(), s.histories())
	}
	if !s.w.fs.Crashed() && t.Bool() {
		time.Sleep(60 * time.Second)
		s.known()
		s.interest()
		s.check()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	announced := map[int]bool{}
	for i := range s.told {
		announced[i] = true
	}
	return announced, when
}

// second plays the session after that.
func (sw *swarm) second(s *session, when string) {
	t := s.t
	s.w.newFS()
	if !s.returned() {
		checkTarget(t, s.w, sw.l, when)
		checkPieces(t, s.w, sw.l, fmt.Sprintf("%x", sw.l.info.SHA1), when)
	}
	sw.start(s)
	done := s.until(sw.settled+sw.limit, time.Second, func() bool { return s.returned() || s.complete() })
	s.check()
	if s.returned() {
		t.Failf("the next session does not start", "%s: %v", when, s.startErr)
	}
	if !done {
		t.Failf("the next session does not finish the download", "%s: %s", when, s.histories())
	}
	time.Sleep(20 * time.Second)
	s.check()
	if d := diffTree(snapshot(s.w.target), sw.l.tree()); d != "" {
		t.Failf("wrong files in the end", "%s: %s", when, d)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	t.LabelIf(len(s.spare) > 0, "pieces kept")
}
