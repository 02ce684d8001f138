package main

import (
	"time"
)

func init() {
	register(&Prop{ID: "C01", Rule: "a run is non-trivial when at least one call got a response", Gen: genC01, Exec: execC01,
		NonTrivial: func(r *Run) bool { return r.Counts["rsp"] > 0 }})
}

func genC01(g *Rng, p *Plan) {
	nc := g.In(1, 2)
	p.Knobs["_clients"] = nc
	genKnobs(g, p, "syncwrite", "nobatchsend", "nobatchrecv", "sbs", "rbs", "sq", "pool", "exec", "clone", "nil")
	genOps(g, p, opGen{
		kinds:   []string{"call", "call", "cctx", "async", "notify", "scall", "scall", "scctx", "sasync", "snotify"},
		methods: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, actors: 4, ops: 6, clients: nc,
		maxGap: 30000, tmin: 200, tmax: 3_000_000, slow: g.Pick(100, 3000, 30000, 1_500_000), size: g.Pick(20, 300, 3000)})
	if g.P(2) {
		genFaults(g, p, 4, 60000, "reset", "cut", "partwrite", "hold", "partition", "dialfail", "crash", "slowread")
	}
}

func execC01(r *Run) {
	w := newRPCWorld(r, r.Plan.K("_clients"))
	if !w.start() {
		w.stop()
		return
	}
	r.actors(w.limit, func(a, i int, op Op) {
		w.issue(a, i, op)
	})
	// let callbacks and late responses arrive
	time.Sleep(5 * time.Second)
	w.checkCorrelation()
	w.stop()
	time.Sleep(3 * time.Second)
}

// checkCorrelation: every response belongs to the request it answers.
func (w *rpcWorld) checkCorrelation() {
	check := func(cr *callRec, rsp string, err error, where string) {
		if err == nil {
			w.r.count("rsp")
			if isNil(cr.method) && cr.id%2 == 0 {
				if rsp != "" || len(w.handled[cr.id]) == 0 {
					w.r.Fail("bad-response", "%s %d (%s) on %s returned %q, its %d handlers answered with no data", cr.kind, cr.id, where, cr.method, clip(rsp), len(w.handled[cr.id]))
				}
				return
			}
			tag, id, nonce, e := chkPay(rsp)
			if e != nil {
				w.r.Fail("bad-response", "%s %d (%s) on %s: %v", cr.kind, cr.id, where, cr.method, e)
				return
			}
			if tag != "R" || id != cr.id {
				w.r.Fail("wrong-response", "%s %d (%s) on %s returned the response of request %d (tag %s)", cr.kind, cr.id, where, cr.method, id, tag)
				return
			}
			w.matchNonce(cr, nonce, where)
			return
		}
		if isArpcErr(err) || isNetErr(err) {
			return
		}
		tag, id, nonce, e := chkPay(err.Error())
		if e != nil || tag != "E" {
			w.r.Fail("bad-error", "%s %d (%s) on %s returned an error nobody produced: %q", cr.kind, cr.id, where, cr.method, clip(err.Error()))
			return
		}
		w.r.count("rsp_err")
		if id != cr.id {
			w.r.Fail("wrong-response", "%s %d (%s) on %s returned the error of request %d", cr.kind, cr.id, where, cr.method, id)
			return
		}
		w.matchNonce(cr, nonce, where)
	}
	for _, cr := range w.calls {
		switch cr.kind {
		case "call", "cctx", "scall", "scctx":
			if cr.done {
				check(cr, cr.rsp, cr.err, "return")
			}
		case "async", "sasync":
			for _, cb := range cr.cbs {
				if cb.bad != nil {
					w.r.Fail("bad-response", "%s %d callback: %v", cr.kind, cr.id, cb.bad)
				}
				check(cr, cb.rsp, cb.err, "callback")
			}
		}
	}
}

func (w *rpcWorld) matchNonce(cr *callRec, nonce int, where string) {
	for _, h := range w.handled[cr.id] {
		if h.nonce == nonce {
			if h.atServer != cr.toServer {
				w.r.Fail("wrong-response", "%s %d was answered by its own side", cr.kind, cr.id)
			}
			if h.method != cr.method {
				w.r.Fail("wrong-method", "%s %d for %s was handled as %s", cr.kind, cr.id, cr.method, h.method)
			}
			return
		}
	}
	w.r.Fail("wrong-response", "%s %d (%s) returned a response of no handling of it (nonce %d)", cr.kind, cr.id, where, nonce)
}
