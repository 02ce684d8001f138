package main

import (
	"fmt"
	"net"
	"strconv"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
)

// ---------------------------------------------------------------- C26

func init() {
	register(&Prop{ID: "C26", Rule: "non-trivial when ClientBy returned a client", Gen: genC26, Exec: execC26,
		NonTrivial: func(r *Run) bool { return r.Counts["picked"] > 0 },
		Stub:       []string{"service discovery (etcd, redis): calls of AddServiceNodes/DeleteServiceNodes"}})
}

const microAddrs = 4

func genC26(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.SendBuf = 0
	ns := g.In(1, 2)
	p.Knobs["_svc"] = ns
	p.Knobs["down"] = g.Pick(0, 0, g.N(1<<microAddrs)) // not running at first
	p.Knobs["down2"] = g.Pick(0, 0, g.N(1<<microAddrs))
	p.Knobs["undel"] = g.Pick(0, 0, g.N(1<<microAddrs))
	span := g.Pick(1000, 200_000, 3_000_000)
	// one actor per node: what discovery tells about it comes in order
	for s := 0; s < ns; s++ {
		for a := 0; a < g.In(1, microAddrs); a++ {
			var ops []Op
			for k := g.In(1, 5); k > 0; k-- {
				op := Op{K: g.PickS("add", "add", "add", "del"), A: s, B: a, C: g.Pick(0, 1, 1, 1, 2, 3), E: g.N(4)}
				if g.P(2) {
					op.D = g.Log(1, span)
				}
				ops = append(ops, op)
			}
			p.Actors = append(p.Actors, ops)
		}
	}
	for a := g.In(1, 3); a > 0; a-- {
		var ops []Op
		for k := g.In(1, 8); k > 0; k-- {
			op := Op{K: g.PickS("by", "by", "by", "by", "none", "bad"), A: g.N(ns)}
			if g.P(2) {
				op.D = g.Log(1, span)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(2) {
		genFaults(g, p, 3, 2*span, "reset", "reset", "dialfail", "slowdial", "partition", "up", "down")
	}
}

type nodeEv struct {
	s  int
	t  time.Duration
	st int // 0 absent, 1 present, 2 changing
}

func execC26(r *Run) {
	ns := r.Plan.K("_svc")
	var srvs [microAddrs]*arpc.Server
	var lns [microAddrs]*Listener
	up := func(i int) {
		if srvs[i] != nil {
			return
		}
		s := arpc.NewServer()
		s.Handler = arpc.NewHandler()
		s.Handler.Handle("who", func(ctx *arpc.Context) { ctx.Write(strconv.Itoa(i)) })
		srvs[i] = s
		lns[i] = r.serve(s, fmt.Sprintf("s%d", i))
	}
	down := func(i int) {
		if srvs[i] == nil {
			return
		}
		lns[i].Close()
		for _, l := range r.Net.links {
			if l.addr == fmt.Sprintf("s%d", i) {
				l.reset(errReset)
			}
		}
		s := srvs[i]
		srvs[i] = nil
		if s.Listener != nil {
			s.Stop()
		}
	}
	for i := 0; i < microAddrs; i++ {
		if r.Plan.K("down")&(1<<i) == 0 {
			up(i)
		}
	}
	time.Sleep(us(10))
	finished := false
	for i := range r.faults {
		f := &r.faults[i]
		if f.Kind != "up" && f.Kind != "down" {
			continue
		}
		time.AfterFunc(us(f.At), func() {
			if f.done || finished {
				return
			}
			f.done = true
			r.fault("server-" + f.Kind)
			if k := f.Dir % microAddrs; f.Kind == "up" {
				up(k)
			} else {
				down(k)
			}
		})
	}
	m := micro.NewServiceManager(func(addr string) (net.Conn, error) { return r.Net.dial(addr, "m") })
	nodes := map[[2]int][]nodeEv{}
	weight := map[[2]int]int{}
	set := func(s, a, st int) {
		nodes[[2]int{s, a}] = append(nodes[[2]int{s, a}], nodeEv{r.nev, r.Now(), st})
	}
	cur := func(s, a int) int {
		l := nodes[[2]int{s, a}]
		if len(l) == 0 {
			return 0
		}
		return l[len(l)-1].st
	}
	svc := func(s int) string { return fmt.Sprintf("svc%d", s) }
	// maybe reports whether the node may have been in the list since event e
	maybe := func(s, a, e int) bool {
		st := 0
		for _, x := range nodes[[2]int{s, a}] {
			if x.s <= e {
				st = x.st
			} else if x.st != 0 {
				return true
			}
		}
		return st != 0
	}
	must := func(s, a, e int) bool {
		st := 0
		for _, x := range nodes[[2]int{s, a}] {
			if x.s <= e {
				st = x.st
			} else if x.st != 1 {
				return false
			}
		}
		return st == 1
	}
	addrOf := func(c *arpc.Client) int {
		l := LinkOf(c.Conn)
		if l == nil {
			return -1
		}
		n, _ := strconv.Atoi(l.addr[1:])
		return n
	}
	by := func(s int) (*arpc.Client, error) {
		r.ev("by", s)
		e := r.nev
		c, err := m.ClientBy(svc(s))
		any, all := false, false
		for a := 0; a < microAddrs; a++ {
			any = any || maybe(s, a, e)
			all = all || must(s, a, e)
		}
		switch {
		case err == nil && c == nil:
			r.Fail("nil", "ClientBy returned neither a client nor an error")
		case err == nil:
			r.count("picked")
			if a := addrOf(c); a < 0 || !maybe(s, a, e) {
				r.Fail("gone", "ClientBy(%s) returned a client of s%d, which is not a node of it", svc(s), a)
			}
		case err == micro.ErrServiceNotFound:
			if all {
				r.Fail("notfound", "ClientBy(%s) found no service although it has nodes", svc(s))
			}
		case err == micro.ErrServiceUnreachable:
			if !any {
				r.Fail("unreachable", "ClientBy(%s) returned %v although it has no nodes", svc(s), err)
			}
		default:
			r.Fail("error", "ClientBy(%s): %v", svc(s), err)
		}
		return c, err
	}
	ok := r.actors(5*time.Minute, func(a, i int, op Op) {
		path := fmt.Sprintf("app/%s/s%d", svc(op.A), op.B)
		switch op.K {
		case "add":
			w := max(op.C, 1)
			val := strconv.Itoa(op.C)
			if op.C == 0 {
				val = []string{"", "x", "0", "-2"}[op.E%4]
			}
			r.ev("add", op.A, op.B)
			if cur(op.A, op.B) != 1 {
				set(op.A, op.B, 2)
				weight[[2]int{op.A, op.B}] = w
			}
			m.AddServiceNodes(path, val)
			r.ev("add-end", op.A, op.B)
			if cur(op.A, op.B) != 1 {
				set(op.A, op.B, 1)
			}
		case "del":
			r.ev("del", op.A, op.B)
			if cur(op.A, op.B) != 0 {
				set(op.A, op.B, 2)
			}
			m.DeleteServiceNodes(path)
			r.ev("del-end", op.A, op.B)
			if cur(op.A, op.B) != 0 {
				set(op.A, op.B, 0)
			}
		case "by":
			if c, err := by(op.A); err == nil {
				var who string
				if c.Call("who", "", &who, time.Second) == nil && who == "" {
					r.Fail("response", "empty response")
				}
			}
		case "none":
			if _, err := m.ClientBy("nosuch"); err != micro.ErrServiceNotFound {
				r.Fail("notfound", "ClientBy of an unknown service: %v", err)
			}
		case "bad":
			for _, p := range []string{"", "app", "app/" + svc(op.A)} {
				m.AddServiceNodes(p, "1")
				m.DeleteServiceNodes(p)
			}
		}
	})
	if !ok {
		r.Fail("stuck", "operations have not ended after 5 minutes")
		return
	}
	r.quell()
	finished = true
	// every server runs: every node is used according to its weight
	for i := 0; i < microAddrs; i++ {
		up(i)
	}
	time.Sleep(20 * time.Second)
	check := func(what string) {
		for s := 0; s < ns; s++ {
			total, reach := 0, 0
			for a := 0; a < microAddrs; a++ {
				if cur(s, a) == 1 {
					total += weight[[2]int{s, a}]
					if srvs[a] != nil {
						reach++
					}
				}
			}
			got := map[int]int{}
			for k := 0; k < total; k++ {
				c, err := by(s)
				if err != nil {
					if reach > 0 {
						r.Fail("unreachable", "%s: ClientBy(%s): %v, %d nodes are reachable", what, svc(s), err, reach)
					} else if err != micro.ErrServiceUnreachable {
						r.Fail("error", "%s: ClientBy(%s): %v although it has only unreachable nodes", what, svc(s), err)
					}
					continue
				}
				if err := c.CheckState(); err != nil {
					r.Fail("unusable", "%s: ClientBy(%s) returned a client that is not usable: %v", what, svc(s), err)
				}
				var who string
				err = c.Call("who", "", &who, 3*time.Second)
				a, _ := strconv.Atoi(who)
				if err != nil {
					r.Fail("unusable", "%s: the client of %s does not work: %v", what, svc(s), err)
				} else if cur(s, a) != 1 {
					r.Fail("gone", "%s: the client of %s reached s%d, which is not a node of it", what, svc(s), a)
				}
				got[a]++
			}
			if total == 0 {
				if _, err := by(s); err != micro.ErrServiceNotFound {
					r.Fail("notfound", "%s: ClientBy(%s) without nodes: %v", what, svc(s), err)
				}
			}
			for a := 0; a < microAddrs; a++ {
				if cur(s, a) != 1 || srvs[a] == nil {
					continue
				}
				w := weight[[2]int{s, a}]
				if got[a] < w || (got[a] != w && what == "all up") {
					r.Fail("weight", "%s: s%d was returned %d of %d times by ClientBy(%s), its weight is %d", what, a, got[a], total, svc(s), w)
				}
			}
		}
	}
	// the same holds for concurrent callers
	concurrent := func() {
		for s := 0; s < ns; s++ {
			total := 0
			for a := 0; a < microAddrs; a++ {
				if cur(s, a) == 1 {
					total += weight[[2]int{s, a}]
				}
			}
			const callers = 4
			got := map[int]int{}
			var as [][]Op
			for k := 0; k < callers; k++ {
				as = append(as, make([]Op, total))
			}
			if !r.runActors(as, time.Minute, func(a, i int, op Op) {
				if c, err := m.ClientBy(svc(s)); err == nil {
					got[addrOf(c)]++
				} else {
					r.Fail("unreachable", "ClientBy(%s): %v, all nodes are reachable", svc(s), err)
				}
			}) {
				r.Fail("stuck", "ClientBy has not returned")
			}
			for a := 0; a < microAddrs; a++ {
				if w := weight[[2]int{s, a}]; cur(s, a) == 1 && got[a] != callers*w {
					r.Fail("weight", "%d concurrent callers got s%d %d of %d times by ClientBy(%s), its weight is %d", callers, a, got[a], callers*total, svc(s), w)
				}
			}
		}
	}
	open := func() map[string]int {
		n := map[string]int{}
		for _, l := range r.Net.links {
			if l.accepted && !l.Dead() {
				n[l.addr]++
			}
		}
		return n
	}
	conns := func() {
		o := open()
		for a := 0; a < microAddrs; a++ {
			want := 0
			for s := 0; s < ns; s++ {
				if cur(s, a) == 1 && srvs[a] != nil {
					want++
				}
			}
			if n := o[fmt.Sprintf("s%d", a)]; n != want {
				r.Fail("connections", "there are %d connections to s%d, which is a node of %d services", n, a, want)
			}
		}
	}
	check("all up")
	concurrent()
	time.Sleep(ms(100))
	conns()
	// some are down
	for i := 0; i < microAddrs; i++ {
		if r.Plan.K("down2")&(1<<i) != 0 {
			down(i)
		}
	}
	time.Sleep(5 * time.Second)
	check("some down")
	conns()
	for i := 0; i < microAddrs; i++ {
		up(i)
	}
	time.Sleep(5 * time.Second)
	check("all up")
	conns()
	if u := r.Plan.K("undel"); u > 0 {
		// nodes that are added while they can't be reached, and deleted before they can be
		for i := 0; i < microAddrs; i++ {
			if u&(1<<i) != 0 {
				down(i)
				time.Sleep(ms(10))
				m.AddServiceNodes(fmt.Sprintf("app/late/s%d", i), "2")
				if i&1 == r.Plan.K("down2")&1 {
					m.AddServiceNodes(fmt.Sprintf("app/late/s%d", i), "3") // told again
				}
			}
		}
		n0 := r.Net.dials
		time.Sleep(ms(2500))
		// each node, reachable before or not, is dialed again about once a second
		if n := r.Net.dials - n0; n > 4*microAddrs*(ns+1) {
			r.Fail("dials", "unreachable nodes were dialed %d times in 2.5 s", n)
		}
		for i := 0; i < microAddrs; i++ {
			m.DeleteServiceNodes(fmt.Sprintf("app/late/s%d", i))
		}
		r.count("unreachable_deleted")
		if _, err := m.ClientBy("late"); err != micro.ErrServiceNotFound {
			r.Fail("deleted", "a service without nodes: %v", err)
		}
	}
	for s := 0; s < ns; s++ {
		for a := 0; a < microAddrs; a++ {
			if cur(s, a) == 1 {
				m.DeleteServiceNodes(fmt.Sprintf("app/%s/s%d", svc(s), a))
				r.ev("del-end", s, a)
				set(s, a, 0)
			}
		}
	}
	check("all deleted")
	time.Sleep(5 * time.Second)
	conns()
	n := r.Net.dials
	time.Sleep(5 * time.Second)
	if r.Net.dials != n {
		r.Fail("dials", "deleted nodes that can't be reached are still dialed")
	}
	for i := 0; i < microAddrs; i++ {
		up(i)
	}
	n = r.Net.dials
	time.Sleep(10 * time.Second)
	if r.Net.dials != n {
		r.Fail("dials", "deleted nodes are still dialed")
	}
	for i := 0; i < microAddrs; i++ {
		down(i)
	}
	time.Sleep(3 * time.Second)
}
