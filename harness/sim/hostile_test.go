package sim

import (
	"fmt"
	"slices"
	"time"
)

// drop is a connection the client has to close after reading upto bytes.
type drop struct {
	sc   *sconn
	upto int64
	why  string
}

// mustDrop notes that what was sent so far breaks the protocol.
func (k *link) mustDrop(why string) {
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	k.s.drops = append(k.s.drops, drop{k.sc, k.sc.sentBytes, why})
	k.s.labels["offence: "+why]++
}

// villains are the participants that misbehave, by kind. None of them is
// needed for anything.
var villains map[string]func(k *link)

var hostileKinds = []string{"garbage", "greeted garbage", "bad have", "bad bitfield", "silent seeder", "corrupt seeder", "poisoner", "not reading",
	"cut off", "malformed", "trickle", "silent", "flapper", "bad requests", "wrong blocks", "no handshake", "flood", "half closed", "choker", "early data", "hoarder"}

func init() {
	villains = map[string]func(k *link){
		"garbage": func(k *link) {
			b := make([]byte, 1+k.rng.IntN(3000))
			for i := range b {
				b[i] = byte(k.rng.Uint32())
			}
			k.raw(b)
			k.drain(0)
		},
		"greeted garbage": func(k *link) {
			if !k.greet() {
				return
			}
			b := make([]byte, 1+k.rng.IntN(3000))
			for i := range b {
				b[i] = byte(k.rng.Uint32() >> 8)
				if k.rng.IntN(3) == 0 {
					b[i] = byte(k.rng.IntN(12))
				}
			}
			go k.drain(0)
			k.pause(time.Duration(k.rng.IntN(5000)) * time.Millisecond)
			k.raw(b)
		},
		"bad have": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			k.announceAll(k.rng.IntN(2) == 0)
			k.pause(time.Duration(k.rng.IntN(3000)) * time.Millisecond)
			np := k.s.l.pieces()
			i := []int{np, np + 1, (np + 7) / 8 * 8, (np+7)/8*8 + 8, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}[k.rng.IntN(8)]
			if i < np {
				i = np
			}
			k.raw(msg{kind: mHave, index: i}.bytes())
			k.mustDrop("announcing a piece that does not exist")
			k.linger()
		},
		"bad bitfield": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			np := k.s.l.pieces()
			n := (np + 7) / 8
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(k.rng.Uint32())
			}
			for i := np; i < 8*n; i++ {
				b[i/8] &^= 0x80 >> (i % 8)
			}
			switch k.rng.IntN(4) {
			case 0: // spare bit
				if np%8 != 0 {
					i := np + k.rng.IntN(8*n-np)
					b[i/8] |= 0x80 >> (i % 8)
					break
				}
				fallthrough
			case 1:
				b = append(b, make([]byte, 1+k.rng.IntN(20))...)
			case 2:
				b = append(b, make([]byte, 1<<10)...)
				b[len(b)-1] = 0xff
			case 3:
				b = b[:n-1]
			}
			k.raw(msg{kind: mBitfield, data: b}.bytes())
			k.mustDrop("bitfield that does not fit the torrent")
			k.linger()
		},
		"silent seeder": func(k *link) {
			if !k.greet() {
				return
			}
			k.announceAll(true)
			k.write(msg{kind: mUnchoke})
			go k.beat()
			k.drain(0)
		},
		"corrupt seeder": func(k *link) { k.seedBadly(true) },
		"wrong blocks":   func(k *link) { k.seedBadly(false) },
		"poisoner": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			if k.rng.IntN(2) == 0 {
				k.announceAll(true)
			}
			if k.rng.IntN(2) == 0 {
				k.write(msg{kind: mUnchoke})
			}
			every := time.Duration(k.rng.IntN(300)) * time.Millisecond
			for n := 0; n < 60; n++ {
				i := k.rng.IntN(k.s.l.pieces())
				b := k.rng.IntN(k.s.l.blocks(i))
				d := slices.Clone(k.s.l.block(i, b))
				d[k.rng.IntN(len(d))] ^= byte(1 + k.rng.IntN(255))
				if k.raw(msg{kind: mPiece, index: i, begin: b * block, data: d}.bytes()) != nil || !k.pause(every) {
					return
				}
			}
			k.beat()
		},
		"not reading": func(k *link) {
			if k.hail(k.goodHandshake(), true) != nil {
				return
			}
			k.announceAll(k.rng.IntN(2) == 0)
			if k.rng.IntN(4) > 0 {
				k.write(msg{kind: mUnchoke})
			}
			switch k.rng.IntN(4) {
			case 0: // long enough to be unchoked
				if !k.pause(time.Duration(10+k.rng.IntN(20)) * time.Second) {
					return
				}
			case 1:
				if k.rng.IntN(2) == 0 {
					k.write(msg{kind: mInterested})
				}
				k.beat()
				return
			case 2:
				k.linger()
				return
			}
			for n := 0; n < 300; n++ {
				if !k.pause(time.Duration(k.rng.IntN(1000)) * time.Millisecond) {
					return
				}
				i := k.rng.IntN(k.s.l.pieces())
				b := k.rng.IntN(k.s.l.blocks(i))
				if k.write(msg{kind: mRequest, index: i, begin: b * block, n: len(k.s.l.block(i, b))}) != nil {
					return
				}
			}
			k.beat()
		},
		"cut off": func(k *link) {
			b := k.goodHandshake()
			b = append(b, k.fullBitfield().bytes()...)
			b = append(b, msg{kind: mUnchoke}.bytes()...)
			b = append(b, msg{kind: mPiece, index: 0, data: make([]byte, block)}.bytes()...)
			b = b[:1+k.rng.IntN(len(b)-1)]
			k.hail(b[:min(68, len(b))], len(b) >= 68)
			if len(b) > 68 {
				k.raw(b[68:])
			}
			k.pause(time.Duration(k.rng.IntN(8000)) * time.Millisecond)
			if k.rng.IntN(2) == 0 {
				k.far.Abort()
			} else {
				k.far.Close()
			}
			k.end()
		},
		"malformed": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			if k.rng.IntN(2) == 0 {
				k.announceAll(true)
				k.write(msg{kind: mUnchoke})
				k.pause(time.Duration(k.rng.IntN(5000)) * time.Millisecond)
			}
			var b []byte
			switch k.rng.IntN(6) {
			case 0:
				b = u32(5)
				b = append(b, mRequest, 0, 0, 0, 1)
			case 1:
				b = append(u32(2), mHave, 9)
			case 2:
				b = append(u32(8), mPiece, 0, 0, 0, 0, 0, 0, 0)
			case 3:
				b = append(u32(9), mCancel, 1, 2, 3, 4, 5, 6, 7, 8)
			case 4:
				b = append(u32(14), mRequest, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 1)
			case 5:
				b = append(u32(3), mUnchoke, 1, 2)
			}
			k.raw(b)
			k.s.label("malformed message")
			k.linger()
		},
		"trickle": func(k *link) {
			go k.drain(0)
			b := k.goodHandshake()
			slow := k.rng.IntN(2) == 0
			if !slow {
				if k.hail(b, true) != nil {
					return
				}
				b = append(k.fullBitfield().bytes(), msg{kind: mUnchoke}.bytes()...)
				b = append(b, msg{kind: mPiece, data: make([]byte, 600)}.bytes()...)
			}
			for i := range b {
				if k.raw(b[i:i+1]) != nil || !k.pause(time.Duration(500+k.rng.IntN(9000))*time.Millisecond) {
					return
				}
			}
		},
		"silent": func(k *link) {
			switch k.rng.IntN(3) {
			case 0:
				k.drain(0)
			case 1:
				if k.greet() {
					k.drain(0)
				}
			case 2:
				if k.hail(k.goodHandshake(), true) == nil {
					k.linger()
				}
			}
		},
		"flapper": func(k *link) {
			if k.greet() {
				k.announceAll(true)
				k.write(msg{kind: mUnchoke})
				go k.drain(0)
				k.pause(time.Duration(k.rng.IntN(2000)) * time.Millisecond)
			}
			k.far.Abort()
			k.end()
		},
		"bad requests": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			if k.rng.IntN(2) == 0 {
				k.write(msg{kind: mInterested})
			}
			if k.rng.IntN(2) == 0 {
				k.pause(time.Duration(k.rng.IntN(20000)) * time.Millisecond)
			}
			np := k.s.l.pieces()
			right := k.rng.IntN(3)
			x := func() int {
				return []int{0, 1, np - 1, np, block, block - 1, block + 1, 1 << 17, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - block}[k.rng.IntN(12)]
			}
			for n := 0; n < 30; n++ {
				if k.rng.IntN(4) < right {
					i := k.rng.IntN(np)
					b := k.rng.IntN(k.s.l.blocks(i))
					if k.write(msg{kind: mRequest, index: i, begin: b * block, n: len(k.s.l.block(i, b))}) != nil || !k.pause(time.Duration(k.rng.IntN(500))*time.Millisecond) {
						return
					}
					continue
				}
				if k.write(msg{kind: mRequest + 2*k.rng.IntN(2), index: x(), begin: x(), n: x()}) != nil || !k.pause(time.Duration(k.rng.IntN(2000))*time.Millisecond) {
					return
				}
			}
			k.beat()
		},
		"no handshake": func(k *link) {
			b := k.goodHandshake()
			switch k.rng.IntN(4) {
			case 0:
				b[0] = 18
			case 1:
				b[1+k.rng.IntN(19)] ^= 1
			case 2:
				b[28+k.rng.IntN(20)] ^= 0x10
			case 3:
				copy(b[48:], k.s.id[:])
			}
			k.hail(b, false)
			k.raw(append(k.fullBitfield().bytes(), msg{kind: mUnchoke}.bytes()...))
			go k.drain(0)
			k.linger()
		},
		"flood": func(k *link) {
			if !k.greet() {
				return
			}
			go k.drain(0)
			for n := 0; n < 400; n++ {
				var m msg
				switch k.rng.IntN(8) {
				case 0:
					m = msg{kind: mChoke}
				case 1, 2:
					m = msg{kind: mUnchoke}
				case 3:
					m = msg{kind: mHave, index: k.rng.IntN(k.s.l.pieces())}
				case 4:
					m = msg{kind: mKeepalive}
				case 5:
					m = msg{kind: mInterested + k.rng.IntN(2)}
				case 6:
					m = k.fullBitfield()
				case 7:
					m = msg{kind: mCancel, index: k.rng.IntN(4), begin: 0, n: block}
				}
				if k.write(m) != nil || !k.pause(time.Duration(k.rng.IntN(100))*time.Millisecond) {
					return
				}
			}
			k.beat()
		},
		"half closed": func(k *link) {
			if k.greet() {
				k.announceAll(true)
				k.write(msg{kind: mUnchoke})
			}
			k.far.CloseWrite()
			k.drain(0)
		},
		"hoarder": func(k *link) {
			// once it may, asks and asks without reading a thing
			if !k.greet() {
				return
			}
			k.write(msg{kind: mInterested})
			for {
				m, err := k.read()
				if err != nil {
					k.far.Close()
					k.end()
					return
				}
				if m.kind == mUnchoke {
					break
				}
			}
			has := k.servable()
			if len(has) == 0 || !k.pause(time.Duration(k.rng.IntN(3)*k.rng.IntN(3000))*time.Millisecond) {
				k.linger()
				return
			}
			size := []int{block, block, 1, 0}[k.rng.IntN(4)]
			k.s.label("requests without end")
			for range 4 * hoard / 3 {
				i := has[k.rng.IntN(len(has))]
				b := k.rng.IntN(k.s.l.blocks(i))
				n := len(k.s.l.block(i, b))
				switch size {
				case 0:
					n = 1 + k.rng.IntN(n)
				case 1:
					n = 1
				}
				if k.write(msg{kind: mRequest, index: i, begin: b * block, n: n}) != nil {
					return
				}
			}
			k.linger()
		},
		// Not against the rules as a whole: what it may ask for it is owed as
		// long as the client keeps it.
		"burst": func(k *link) {
			k.asker(func(has []int) {
				k.s.label("burst of requests")
				for range 1200 + k.rng.IntN(1600) {
					if k.ask(has, 64) != nil {
						return
					}
				}
			})
		},
		// Asks at about the moment when the client unchokes its peers. Until it
		// has been told, nothing may be sent to it.
		"hasty": func(k *link) {
			if !k.greet() {
				return
			}
			k.write(msg{kind: mInterested})
			go k.beat()
			done := make(chan struct{})
			go func() {
				defer close(done)
				for {
					if _, err := k.read(); err != nil {
						k.far.Close()
						k.end()
						return
					}
				}
			}()
			off := time.Duration(k.rng.IntN(2*int(k.s.scale)+1))*2 - time.Duration(k.rng.IntN(2))*time.Millisecond
			tick := time.Since(epoch).Truncate(10*time.Second) + 10*time.Second
			k.pause(time.Until(epoch.Add(tick + off - k.s.latency)))
			if has := k.servable(); len(has) > 0 {
				k.s.label("request at the moment of unchoking")
				for range 1 + k.rng.IntN(3) {
					k.ask(has, 64)
				}
			}
			<-done
		},
		"doubtful": func(k *link) {
			k.asker(func(has []int) {
				np := k.s.l.pieces()
				for range 4 + k.rng.IntN(20) {
					if k.rng.IntN(6) > 0 {
						if k.ask(has, block) != nil || !k.pause(time.Duration(k.rng.IntN(2)*k.rng.IntN(2000))*time.Millisecond) {
							return
						}
						continue
					}
					i := k.rng.IntN(np)
					m := msg{kind: mRequest, index: i, begin: 0, n: 1 + k.rng.IntN(block)}
					switch k.rng.IntN(5) {
					case 0:
						m.begin = k.s.l.pieceSize(i)
					case 1:
						m.begin, m.n = k.s.l.pieceSize(i)-1, 2
					case 2:
						m.index = np
					case 3:
						m.n = 0
					}
					k.s.label("request beside the rules")
					if k.write(m) != nil || !k.pause(time.Duration(k.rng.IntN(2)*k.rng.IntN(5000))*time.Millisecond) {
						return
					}
				}
			})
		},
		"spoiler": func(k *link) {
			// asks for what cannot be had, when it may
			if !k.greet() {
				return
			}
			k.write(msg{kind: mInterested})
			for {
				m, err := k.read()
				if err != nil {
					k.far.Close()
					k.end()
					return
				}
				if m.kind == mUnchoke {
					go func() {
						if k.pause(time.Duration(k.rng.IntN(3000)) * time.Millisecond) {
							k.write(msg{kind: mRequest, index: 0, begin: 1 << 20, n: 1})
						}
					}()
				}
			}
		},
		"choker": func(k *link) {
			// unchokes, lets requests come, chokes without answering
			if !k.greet() {
				return
			}
			k.announceAll(true)
			go k.drain(0)
			for n := 0; n < 200; n++ {
				k.write(msg{kind: mUnchoke})
				if !k.pause(time.Duration(k.rng.IntN(3000)) * time.Millisecond) {
					return
				}
				k.write(msg{kind: mChoke})
				if !k.pause(time.Duration(k.rng.IntN(1500)) * time.Millisecond) {
					return
				}
			}
			k.beat()
		},
		"early data": func(k *link) {
			// sends good data before being asked, and twice
			if !k.greet() {
				return
			}
			go k.drain(0)
			k.announceAll(true)
			for n := 0; n < 40; n++ {
				if n == 10 {
					k.write(msg{kind: mUnchoke})
				}
				i := k.rng.IntN(k.s.l.pieces())
				b := k.rng.IntN(k.s.l.blocks(i))
				if k.raw(msg{kind: mPiece, index: i, begin: b * block, data: k.s.l.block(i, b)}.bytes()) != nil || !k.pause(time.Duration(k.rng.IntN(500))*time.Millisecond) {
					return
				}
			}
			k.beat()
		},
	}
}

func (k *link) greet() bool {
	if k.hail(k.goodHandshake(), true) != nil || k.readHS() != nil {
		k.far.Close()
		k.end()
		return false
	}
	return true
}

func (k *link) fullBitfield() msg {
	np := k.s.l.pieces()
	b := make([]byte, (np+7)/8)
	for i := range np {
		b[i/8] |= 0x80 >> (i % 8)
	}
	return msg{kind: mBitfield, data: b}
}

func (k *link) announceAll(yes bool) {
	if yes {
		k.write(k.fullBitfield())
	}
}

// drain reads and forgets.
func (k *link) drain(time.Duration) {
	b := make([]byte, 4096)
	for {
		if _, err := k.far.Read(b); err != nil {
			k.far.Close()
			k.end()
			return
		}
	}
}

// linger keeps the connection open.
func (k *link) linger() { <-k.gone }

// beat keeps it alive.
func (k *link) beat() {
	for k.pause(100 * time.Second) {
		if k.write(msg{kind: mKeepalive}) != nil {
			return
		}
	}
}

// seedBadly answers requests with corrupted data, or with other blocks than
// the ones asked for.
func (k *link) seedBadly(corrupt bool) {
	if !k.greet() {
		return
	}
	k.announceAll(true)
	if k.p.both && !k.pause(k.p.unchoke) {
		return
	}
	k.write(msg{kind: mUnchoke})
	go k.beat()
	rate := 1 + k.rng.IntN(4)
	for {
		m, err := k.read()
		if err != nil {
			k.far.Close()
			k.end()
			return
		}
		switch m.kind {
		case mCancel:
			delete(k.got, m.index)
		case mRequest:
			if k.s.outside(m) {
				continue
			}
			if !k.pause(time.Duration(k.rng.IntN(50)) * time.Millisecond) {
				return
			}
			a := k.s.goodPiece(blk{m.index, m.begin, m.n})
			if corrupt {
				bad := k.rng.IntN(rate) == 0
				if bad {
					a.data[k.rng.IntN(len(a.data))] ^= byte(1 + k.rng.IntN(255))
				}
				if k.write(a) != nil {
					return
				}
				g := k.got[m.index]
				if g == nil {
					g = map[int]bool{}
					k.got[m.index] = g
				}
				g[m.begin/block] = bad
				if len(g) == k.s.l.blocks(m.index) {
					for _, bad := range g {
						if bad {
							k.mustDrop("corrupt piece")
							break
						}
					}
					delete(k.got, m.index)
				}
				continue
			}
			switch k.rng.IntN(5) {
			case 0:
				a.data = a.data[:k.rng.IntN(len(a.data))]
			case 1:
				a.data = append(a.data, 0)
			case 2:
				a.begin = (a.begin + 1) % (1 << 31)
			case 3:
				a.index = []int{a.index + 1, k.s.l.pieces(), 1<<31 - 1}[k.rng.IntN(3)]
			case 4:
				a.begin = []int{a.begin + block, 1 << 30, 1<<32 - block}[k.rng.IntN(3)]
			}
			if k.raw(a.bytes()) != nil {
				return
			}
		}
	}
}

func (s *session) outside(m msg) bool {
	return m.index < 0 || m.index >= s.l.pieces() || m.begin < 0 || m.n < 0 || m.begin+m.n > s.l.pieceSize(m.index)
}

// offences checks that offenders were dropped; slack after reading the offence.
func (s *session) offences(slack time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, d := range s.drops {
		at, ok := d.sc.app.Other.ReadBy(d.upto)
		if !ok || d.sc.app.Closed() || time.Since(at) < slack {
			continue
		}
		s.violateLocked("C26 C33", "offending peer not disconnected", "%s: %s, read %v ago", d.sc.name(), d.why, time.Since(at))
	}
}

// bystanders checks that the client closed no honest peer's connection.
func (s *session) bystanders() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		if c.act == nil || !c.act.p.honest() || !c.validHS || !c.app.Closed() {
			continue
		}
		at, _ := c.app.ClosedAt()
		if far, closed := c.app.Other.ClosedAt(); closed && !at.Before(far) {
			continue
		}
		if c.n == 0 && s.crowd {
			continue
		}
		s.violateLocked("C25 C26 C28 C33", "honest peer disconnected", "%s, closed at %v; last messages: %s", c.name(), at.Sub(epoch), fmt.Sprint(c.hist[max(0, len(c.hist)-8):]))
	}
}

// hoard is how many unanswered requests are more than any client keeps.
const hoard = 15000

// servable gives the pieces the client may be asked for.
func (k *link) servable() (has []int) {
	for i := range k.s.l.pieces() {
		if k.s.has(i) {
			has = append(has, i)
		}
	}
	return has
}

// ask requests some of what the client has.
func (k *link) ask(has []int, most int) error {
	i := has[k.rng.IntN(len(has))]
	b := k.rng.IntN(k.s.l.blocks(i))
	n := min(len(k.s.l.block(i, b)), most)
	if k.rng.IntN(2) == 0 {
		n = 1 + k.rng.IntN(n)
	}
	return k.write(msg{kind: mRequest, index: i, begin: b * block, n: n})
}

// asker waits to be unchoked, makes its requests and reads all that comes.
func (k *link) asker(requests func(has []int)) {
	if !k.greet() {
		return
	}
	k.write(msg{kind: mInterested})
	go k.beat()
	once := false
	for {
		m, err := k.read()
		if err != nil {
			k.far.Close()
			k.end()
			return
		}
		if m.kind == mUnchoke && !once {
			once = true
			if has := k.servable(); len(has) > 0 {
				go requests(has)
			}
		}
	}
}

// owedTo: participants whose requests have to be answered while they are connected.
func (p *speer) owedTo() bool { return p.honest() || p.kind == "burst" || p.kind == "doubtful" }
