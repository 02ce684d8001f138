package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strconv"
	"strings"
	"time"
	_ "unsafe"

	"github.com/lesismal/arpc"
	mredis "github.com/lesismal/arpc/extension/micro/redis"
)

// ---------------------------------------------------------------- C32

//go:linkname redisSeed github.com/go-redis/redis/v8/internal/rand.Seed
func redisSeed(n int64)

func init() {
	register(&Prop{ID: "C32", Rule: "non-trivial when a discovery reported a node", Gen: genC32, Exec: execC32,
		NonTrivial: func(r *Run) bool { return r.Counts["reported"] > 0 },
		Real:       []string{"redis registry and discovery", "go-redis client"},
		Stub:       []string{"redis server: an in-memory hash behind the real protocol", "service manager: a recorder"}})
}

func genC32(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.SendBuf = 0
	p.Net.Chunk = g.Pick(0, 0, 7, 100)
	if p.Net.DelayMax > 200_000 {
		p.Net.DelayMax = 200_000
	}
	span := g.Pick(2_000_000, 20_000_000, 60_000_000)
	nr := g.In(1, 4)
	p.Knobs["_regs"] = nr
	p.Knobs["late"] = g.Pick(0, 0, 0, 20_000_000) // the manager takes this long, at most
	for i := 0; i < nr; i++ {
		var ops []Op
		for k := g.In(1, 5); k > 0; k-- {
			op := Op{K: g.PickS("start", "start", "start", "stop", "stop", "crash"), A: i, B: g.Pick(0, 1, 1, 3, 10), C: g.Pick(0, 1, 2, 5, 11), E: g.Pick(0, 0, 1, 2, 10, 30)}
			op.D = g.Log(1, span)
			if len(ops) == 0 {
				op.K = "start"
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	nd := g.In(1, 3)
	for i := 0; i < nd; i++ {
		var ops []Op
		for k := g.In(1, 3); k > 0; k-- {
			op := Op{K: g.PickS("watch", "watch", "unwatch"), A: i, B: g.Pick(300, 1000, 1000, 3500), D: g.Log(1, span)}
			if len(ops) == 0 {
				op.K = "watch"
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(3) {
		var ops []Op
		for k := g.In(1, 4); k > 0; k-- {
			ops = append(ops, Op{K: "junk", A: g.N(1000), B: g.N(100), D: g.Log(1, span)})
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(2) {
		genFaults(g, p, 4, span, "reset", "cut", "hold", "dialfail", "slowdial", "partition", "rerr", "rdown", "rwipe", "rslow", "rlost")
		for i := range p.Faults {
			f := &p.Faults[i]
			switch f.Kind {
			case "rerr", "rdown", "rslow":
				f.Dur = g.Log(1000, 20_000_000)
			case "partition", "hold":
				f.Dur = g.Log(1000, 10_000_000)
			case "rlost":
				f.N = g.In(1, 3)
			}
		}
	}
}

// redisStub is the registry's server: one namespace of hashes.
type redisStub struct {
	r     *Run
	ln    *Listener
	data  map[string]map[string]string
	polls map[string][]redisPoll // executed HGETALL by process
	errTo time.Time              // answers with errors until
	down  bool
	slow  time.Duration
	lost  int // writes of which the answer is lost
	hist  map[string][]redisVal
	raced map[string]time.Duration // a discovery that had read an expired entry deleted its successor
}

type redisPoll struct {
	at   time.Duration
	ev   int
	flds map[string]string
}

type redisVal struct {
	at  time.Duration
	val string // "" absent
}

func (s *redisStub) set(ns, f, v string) bool {
	h := s.data[ns]
	if h == nil {
		h = map[string]string{}
		s.data[ns] = h
	}
	_, old := h[f]
	h[f] = v
	s.hist[f] = append(s.hist[f], redisVal{s.r.Now(), v})
	return !old
}

func (s *redisStub) del(ns, f string) bool {
	_, old := s.data[ns][f]
	delete(s.data[ns], f)
	if old {
		s.hist[f] = append(s.hist[f], redisVal{s.r.Now(), ""})
	}
	return old
}

func (s *redisStub) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	tag := LinkOf(c).Tag
	for {
		args, err := readRESP(br)
		if err != nil {
			return
		}
		if s.down {
			return
		}
		out := s.do(tag, args)
		if s.slow > 0 {
			time.Sleep(s.slow)
		}
		if s.lost > 0 && strings.ToLower(args[0]) != "hgetall" {
			s.lost--
			s.r.fault("rlost")
			return
		}
		if _, err := c.Write([]byte(out)); err != nil {
			return
		}
	}
}

func readRESP(br *bufio.Reader) ([]string, error) {
	line := func(c byte) (int, error) {
		s, err := br.ReadString('\n')
		if err != nil {
			return 0, err
		}
		if len(s) < 3 || s[0] != c {
			return 0, errors.New("protocol")
		}
		return strconv.Atoi(s[1 : len(s)-2])
	}
	n, err := line('*')
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		k, err := line('$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	if len(out) == 0 {
		return nil, errors.New("protocol")
	}
	return out, nil
}

func (s *redisStub) do(tag string, a []string) string {
	if time.Now().Before(s.errTo) {
		s.r.fault("rerr-reply")
		return "-LOADING Redis is loading the dataset in memory\r\n"
	}
	num := func(b bool) string {
		if b {
			return ":1\r\n"
		}
		return ":0\r\n"
	}
	s.r.ev("redis:" + strings.ToLower(a[0]))
	switch cmd := strings.ToLower(a[0]); {
	case cmd == "hset" && len(a) >= 4 && len(a)%2 == 0, cmd == "hmset" && len(a) >= 4 && len(a)%2 == 0:
		n := 0
		for i := 2; i+1 < len(a); i += 2 {
			if s.set(a[1], a[i], a[i+1]) {
				n++
			}
		}
		if cmd == "hmset" {
			return "+OK\r\n"
		}
		return fmt.Sprintf(":%d\r\n", n)
	case cmd == "hsetnx" && len(a) == 4:
		if _, ok := s.data[a[1]][a[2]]; ok {
			return num(false)
		}
		return num(s.set(a[1], a[2], a[3]))
	case cmd == "hdel" && len(a) >= 3:
		n := 0
		for _, f := range a[2:] {
			if ps := s.polls[tag]; len(ps) > 0 {
				last := &ps[len(ps)-1]
				old, had := last.flds[f]
				now, has := s.data[a[1]][f]
				if exp, err := strconv.ParseInt(old, 10, 64); had && has && old != now && err == nil && time.Now().Unix() > exp {
					s.raced[f] = s.r.Now()
				}
			}
			if s.del(a[1], f) {
				n++
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case cmd == "hget" && len(a) == 3:
		if v, ok := s.data[a[1]][a[2]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case cmd == "hexists" && len(a) == 3:
		_, ok := s.data[a[1]][a[2]]
		return num(ok)
	case cmd == "hlen" && len(a) == 2:
		return fmt.Sprintf(":%d\r\n", len(s.data[a[1]]))
	case cmd == "del" && len(a) == 2:
		n := false
		for _, f := range sortedKeys(s.data[a[1]]) {
			n = s.del(a[1], f) || n
		}
		return num(n)
	case cmd == "ping":
		return "+PONG\r\n"
	case cmd == "hgetall" && len(a) == 2, cmd == "hkeys" && len(a) == 2:
		p := redisPoll{at: s.r.Now(), ev: s.r.nev, flds: map[string]string{}}
		ks := sortedKeys(s.data[a[1]])
		// a hash has no order
		g := NewRng(s.r.Plan.Seed, 0x4ed15, uint64(len(s.polls[tag])))
		for i := len(ks) - 1; i > 0; i-- {
			j := g.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		out := ""
		for _, k := range ks {
			out += bulk(k)
			if cmd == "hgetall" {
				out += bulk(s.data[a[1]][k])
			}
			p.flds[k] = s.data[a[1]][k]
		}
		s.polls[tag] = append(s.polls[tag], p)
		n := len(ks)
		if cmd == "hgetall" {
			n *= 2
		}
		return fmt.Sprintf("*%d\r\n", n) + out
	}
	s.r.count("unknown_command")
	return "-ERR unknown command '" + a[0] + "'\r\n"
}

func bulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }

// liveIn reports whether the poll's answer has a valid, unexpired entry of the node.
func (p *redisPoll) liveIn(name string, now time.Time) bool {
	for k, v := range p.flds {
		if strings.HasPrefix(k, name+"/") && strings.Count(k, "/") == 2 {
			if n, err := strconv.ParseInt(v, 10, 64); err == nil && n > 0 && now.Unix() <= n {
				return true
			}
		}
	}
	return false
}

type redisEv struct {
	add  bool
	path string
	val  string
	at   time.Duration
}

// redisMgr records what one discovery reports.
type redisMgr struct {
	r     *Run
	s     *redisStub
	tag   string
	evs   []redisEv
	have  map[string]bool
	stopT time.Duration
	check func(m *redisMgr, e redisEv)
	busy  int
}

func (m *redisMgr) rec(e redisEv) {
	e.at = m.r.Now()
	m.evs = append(m.evs, e)
	m.r.count("reported")
	m.r.ev("report")
	if m.busy++; m.busy > 1 {
		m.r.count("overlapping_reports")
	}
	m.check(m, e)
	if e.add {
		m.have[e.path] = true
	} else {
		delete(m.have, e.path)
	}
	if d := m.r.Plan.K("late"); d > 0 && len(m.evs)%3 == 0 {
		time.Sleep(us(NewRng(m.r.Plan.Seed, 0x1a7e, uint64(len(m.evs))).N(d)))
	}
	m.busy--
}
func (m *redisMgr) AddServiceNodes(path, value string) { m.rec(redisEv{add: true, path: path, val: value}) }
func (m *redisMgr) DeleteServiceNodes(path string)     { m.rec(redisEv{path: path}) }
func (m *redisMgr) ClientBy(string) (*arpc.Client, error) {
	return nil, errors.New("unused")
}

type redisProc struct {
	node    int
	field   string
	tag     string
	reg     *mredis.Register
	expire  time.Duration
	intv    time.Duration
	started time.Duration // NewRegister returned
	ended   time.Duration // Stop was called, or crashed
	gone    time.Duration // Stop returned nil
	failed  bool
	crashed bool
	stopErr error
}

func execC32(r *Run) {
	redisSeed(int64(r.Plan.Seed))
	base := runtime.VerifBubbleTotal()
	const ns = "app"
	s := &redisStub{r: r, ln: r.Net.Listen("redis"), data: map[string]map[string]string{}, polls: map[string][]redisPoll{}, hist: map[string][]redisVal{}, raced: map[string]time.Duration{}}
	dead := map[string]bool{}
	net.VerifDial = func(network, addr string) (net.Conn, error) {
		tag := strings.TrimSuffix(addr, ":6379")
		if dead[tag] || s.down {
			time.Sleep(time.Millisecond)
			return nil, errRefused
		}
		c, err := r.Net.dial("redis", tag)
		if err == nil && dead[tag] {
			c.Close()
			return nil, errRefused
		}
		return c, err
	}
	accept := func() {
		for {
			c, err := s.ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}
	go accept()
	for i := range r.faults {
		f := &r.faults[i]
		if len(f.Kind) == 0 || f.Kind[0] != 'r' || f.Kind == "reset" {
			continue
		}
		time.AfterFunc(us(f.At), func() {
			if f.done || r.stopped {
				return
			}
			f.done = true
			r.fault(f.Kind)
			switch f.Kind {
			case "rerr":
				s.errTo = time.Now().Add(us(f.Dur))
			case "rslow":
				s.slow = us(f.Dur)
				time.AfterFunc(us(f.Dur*3), func() { s.slow = 0 })
			case "rlost":
				s.lost += f.N
			case "rwipe":
				for _, k := range sortedKeys(s.data[ns]) {
					s.del(ns, k)
				}
			case "rdown":
				s.down = true
				for _, l := range r.Net.links {
					l.reset(errReset)
				}
				time.AfterFunc(us(f.Dur), func() { s.down = false })
			}
		})
	}
	name := func(i int) string { return fmt.Sprintf("svc%d/10.0.0.%d:80", i%2, i) }
	path := func(i int) string { return ns + "/" + name(i) }
	nr := r.Plan.K("_regs")
	cur := make([]*redisProc, nr)
	var procs []*redisProc
	weights := map[string]map[string]bool{}
	// raced: the known finding removed the entry, and it is not back for slack
	raced := func(f string, slack time.Duration) bool {
		t, ok := s.raced[f]
		if !ok {
			return false
		}
		for _, h := range s.hist[f] {
			if h.at >= t && h.val != "" {
				return r.Now() < h.at+slack
			}
		}
		return true
	}
	check := func(m *redisMgr, e redisEv) {
		if m.stopT > 0 && m.r.Now() > m.stopT+2*time.Minute {
			r.Fail("after-stop", "discovery %s reported %s long after it was stopped", m.tag, e.path)
		}
		rest, ok := strings.CutPrefix(e.path, ns+"/")
		if !ok {
			r.Fail("path", "discovery reported path %q", e.path)
			return
		}
		if e.add {
			if !weights[rest][e.val] {
				r.Fail("phantom", "discovery added %s with weight %q, which nobody registered", e.path, e.val)
			}
			ok := false
			for i := range s.polls[m.tag] {
				p := &s.polls[m.tag][i]
				ok = ok || p.liveIn(rest, r.T0.Add(p.at))
			}
			ps := s.polls[m.tag]
			if len(ps) > 0 && ok && len(r.Fired) == 0 && r.Plan.K("late") == 0 {
				ok = ps[len(ps)-1].liveIn(rest, r.T0.Add(ps[len(ps)-1].at))
			}
			if !ok {
				r.Fail("phantom", "discovery added %s though the registry never told it so", e.path)
			}
			return
		}
		if !m.have[e.path] {
			return
		}
		var since time.Duration
		for _, x := range m.evs[:len(m.evs)-1] {
			if x.add && x.path == e.path {
				since = x.at
			}
		}
		// some answer since it was added must lack it, or it has expired since
		for i := range s.polls[m.tag] {
			p := &s.polls[m.tag][i]
			if p.at >= since && !p.liveIn(rest, time.Now()) {
				return
			}
		}
		r.Fail("lost", "discovery deleted %s, which was added at %v, though the registry never told it so", e.path, since)
	}
	ms := make([]*redisMgr, len(r.Plan.Actors))
	ds := make([]*mredis.Discovery, len(r.Plan.Actors))
	var mgrs []*redisMgr
	seq := 0
	run := func(a, i int, op Op) {
		switch op.K {
		case "start":
			if cur[op.A] != nil {
				return
			}
			seq++
			p := &redisProc{node: op.A, tag: fmt.Sprintf("reg%d-%d", op.A, seq), intv: time.Duration(op.C) * time.Second}
			w := op.B
			if w <= 0 {
				w = 1
			}
			p.expire = time.Duration(op.E) * time.Second
			if weights[name(op.A)] == nil {
				weights[name(op.A)] = map[string]bool{}
			}
			weights[name(op.A)][strconv.Itoa(w)] = true
			p.field = name(op.A) + "/" + strconv.Itoa(w)
			procs = append(procs, p)
			nm := strings.SplitN(name(op.A), "/", 2)
			reg, err := mredis.NewRegister(p.tag+":6379", ns, nm[0], nm[1], op.B, p.intv, p.expire)
			if p.intv <= 0 {
				p.intv = 5 * time.Second
			}
			if p.expire <= p.intv {
				p.expire = p.intv + 5*time.Second
			}
			if err != nil {
				if len(r.Fired) == 0 {
					r.Fail("register", "NewRegister failed: %v", err)
				}
				p.failed = true
				r.count("register_failed")
				return
			}
			p.reg = reg
			p.started = r.Now()
			cur[op.A] = p
			r.count("registered")
		case "stop":
			p := cur[op.A]
			if p == nil {
				return
			}
			cur[op.A] = nil
			p.ended = r.Now()
			if !within(3*time.Minute, func() { p.stopErr = p.reg.Stop() }) {
				r.Fail("stop", "Stop of a register did not return in 3 minutes")
				return
			}
			if p.stopErr == nil {
				p.gone = r.Now()
				r.count("stopped")
			} else if len(r.Fired) == 0 {
				r.Fail("stop", "Stop of a register failed: %v", p.stopErr)
			}
			if op.B%2 == 1 {
				if err := p.reg.Stop(); err == nil && p.gone == 0 { // once more
					p.gone = r.Now()
				}
			}
		case "crash":
			p := cur[op.A]
			if p == nil {
				return
			}
			cur[op.A] = nil
			p.ended = r.Now()
			p.crashed = true
			dead[p.tag] = true
			r.count("crashed")
			for _, l := range r.Net.linksOf(p.tag) {
				l.reset(errReset)
			}
		case "watch":
			if ds[a] != nil {
				return
			}
			seq++
			m := &redisMgr{r: r, s: s, tag: fmt.Sprintf("dis%d-%d", op.A, seq), have: map[string]bool{}, check: check}
			t0 := r.Now()
			var before []*redisProc
			for _, p := range cur {
				if p != nil {
					before = append(before, p)
				}
			}
			d, err := mredis.NewDiscovery(m.tag+":6379", ns, us(op.B*1000), m)
			if err != nil {
				if len(r.Fired) == 0 {
					r.Fail("discovery", "NewDiscovery failed: %v", err)
				}
				r.count("discovery_failed")
				return
			}
			mgrs = append(mgrs, m)
			ms[a], ds[a] = m, d
			r.count("watching")
			if len(r.Fired) == 0 {
				for _, p := range before {
					if p.ended == 0 && p.started < t0 && !m.have[path(p.node)] && !raced(p.field, 4*time.Second+us(40*r.Plan.Net.DelayMax)) {
						r.Fail("first", "NewDiscovery returned and did not report %s, which was registered before", path(p.node))
					}
				}
			}
		case "unwatch":
			if ds[a] == nil {
				return
			}
			d, m := ds[a], ms[a]
			ds[a], ms[a] = nil, nil
			if !within(time.Minute, func() { d.Stop() }) {
				r.Fail("stop", "Stop of a discovery did not return in a minute")
			}
			m.stopT = r.Now()
		case "junk":
			exp := strconv.FormatInt(time.Now().Unix()+int64(op.B)-50, 10)
			switch op.A % 7 {
			case 0:
				s.set(ns, "junk", exp)
			case 1:
				s.set(ns, "svc0/10.9.9.9:80", exp)
			case 2:
				s.set(ns, "svc0/10.9.9.9:80/1", "soon")
			case 3:
				s.set(ns, "svc0/10.9.9.9:80/1", "0")
			case 4:
				s.set(ns, "svc0/10.9.9.9:80/1/x", exp)
			case 5:
				s.set(ns, "svc0/10.9.9.9:80/1", "-5")
			case 6:
				s.set(ns, "", "")
			}
		}
	}
	finished := false
	// a healthy registry always has the registered nodes, and no others
	watch := func() {
		for _, p := range procs {
			if len(r.Fired) > 0 || p.failed || p.started == 0 {
				continue
			}
			now := time.Now()
			v, ok := s.data[ns][p.field]
			if p.ended == 0 {
				if !ok && raced(p.field, 0) {
					r.FailSoft("expired-race", "the entry of "+p.field+" was renewed after a discovery had read it as expired, and deleted by that discovery")
				} else if n, _ := strconv.ParseInt(v, 10, 64); !ok || now.Unix() > n {
					r.Fail("not-registered", "%s is registered and running, but the registry has %q at %v", p.field, v, now.Unix())
				}
			} else if p.gone > 0 && ok {
				other := false
				for _, q := range procs {
					other = other || q != p && q.field == p.field && q.gone == 0
				}
				if !other {
					r.Fail("ghost", "%s was stopped at %v, but the registry has it at %v", p.field, p.gone, r.Now())
				}
			}
		}
		for _, m := range mgrs {
			if len(r.Fired) > 0 || r.Plan.K("late") > 0 || m.stopT > 0 {
				continue
			}
			slack := 4*time.Second + us(40*r.Plan.Net.DelayMax)
			for _, p := range procs {
				if p.started > 0 && p.ended == 0 && r.Now() > p.started+slack && len(m.evs) >= 0 && !m.have[path(p.node)] && m.watchedFor(slack) && !raced(p.field, slack) {
					r.Fail("late", "%s has been registered since %v, discovery %s does not have it at %v", p.field, p.started, m.tag, r.Now())
				}
			}
			for i := 0; i < nr; i++ {
				over := m.have[path(i)]
				for _, p := range procs {
					if p.node != i || !over {
						continue
					}
					switch {
					case p.gone > 0:
						over = r.Now() > p.gone+slack
					case p.crashed:
						over = r.Now() > p.ended+p.expire+time.Second+slack
					default:
						over = false
					}
				}
				if over {
					r.Fail("late", "%s is gone, discovery %s still has it at %v", path(i), m.tag, r.Now())
				}
			}
		}
	}
	go func() {
		for !finished && r.V == nil {
			watch()
			time.Sleep(333 * time.Millisecond)
		}
	}()
	if !r.actors(10*time.Minute, run) {
		r.Fail("hang", "a register or discovery call did not return in 10 minutes")
		return
	}
	// faults end
	if last := r.Now(); last < us(60_000_000) && len(r.faults) > 0 {
		time.Sleep(us(60_000_000) - last)
	}
	r.quell()
	s.errTo, s.slow, s.lost, s.down = time.Time{}, 0, 0, false
	time.Sleep(2 * time.Minute)
	watching := 0
	for _, m := range mgrs {
		if m.stopT > 0 {
			continue
		}
		watching++
		for i := 0; i < nr; i++ {
			if cur[i] != nil && !m.have[path(i)] {
				r.Fail("missing", "%s is registered and running, discovery %s does not have it two minutes after the last fault", path(i), m.tag)
			}
			if cur[i] == nil && m.have[path(i)] {
				r.Fail("stale", "%s is not running, discovery %s still has it two minutes after the last fault", path(i), m.tag)
			}
		}
	}
	if watching > 0 {
		live := map[string]bool{}
		for _, p := range cur {
			if p != nil {
				live[p.field] = true
			}
		}
		for _, k := range sortedKeys(s.data[ns]) {
			if !live[k] {
				r.Fail("ghost", "the registry still has %q two minutes after the last fault", k)
			}
		}
	}
	finished = true
	// everything ends
	clear(dead)
	time.Sleep(20 * time.Second) // the client pauses after failed dials
	for _, p := range procs {
		if p.reg == nil || p.gone > 0 {
			continue
		}
		if err := p.reg.Stop(); err != nil {
			r.Fail("stop", "Stop of a register failed on a healthy network: %v", err)
		}
	}
	for _, d := range ds {
		if d != nil {
			d.Stop()
			d.Stop()
		}
	}
	time.Sleep(time.Minute)
	for _, l := range r.Net.links {
		if !l.ends[0].closed {
			r.Fail("conn-leak", "a connection of %s is still open a minute after everything was stopped", l.Tag)
			break
		}
	}
	s.ln.Close()
	r.leakCheck(base, time.Minute)
}

// watchedFor reports that the discovery has polled for d.
func (m *redisMgr) watchedFor(d time.Duration) bool {
	ps := m.s.polls[m.tag]
	return len(ps) > 0 && m.r.Now() > ps[0].at+d
}
