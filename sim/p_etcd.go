package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "unsafe"

	"github.com/lesismal/arpc"
	metcd "github.com/lesismal/arpc/extension/micro/etcd"
	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
)

// ---------------------------------------------------------------- C33

//go:linkname grpcRand google.golang.org/grpc/internal/grpcrand.r
var grpcRand *rand.Rand

func init() {
	register(&Prop{ID: "C33", Rule: "non-trivial when a discovery reported a node", Gen: genC33, Exec: execC33,
		NonTrivial: func(r *Run) bool { return r.Counts["reported"] > 0 },
		Real:       []string{"etcd registry and discovery", "etcd client and gRPC"},
		Stub:       []string{"etcd server: an in-memory store with revisions, leases and watches behind the real protocol", "service manager: a recorder"}})
}

func genC33(g *Rng, p *Plan) {
	noStalls(p)
	p.Net.SendBuf = 0
	p.Net.Chunk = g.Pick(0, 0, 0, 100)
	if p.Net.DelayMax > 50_000 {
		p.Net.DelayMax = 50_000
	}
	span := g.Pick(1000, 300_000, 3_000_000, 20_000_000)
	nk := g.In(1, 3)
	p.Knobs["_keys"] = nk
	p.Knobs["late"] = g.Pick(0, 0, 0, 3_000_000)
	for i := g.In(1, 4); i > 0; i-- {
		var ops []Op
		k := g.N(nk)
		for n := g.In(1, 4); n > 0; n-- {
			op := Op{K: g.PickS("start", "start", "start", "stop", "stop", "crash"), A: k, B: g.Pick(1, 1, 3, 10), C: g.Pick(2, 5, 10, 20)}
			op.D = g.Log(1, span)
			if len(ops) == 0 {
				op.K = "start"
			}
			if g.P(20) { // dies while registering
				op.F = g.Log(100, 300_000)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	for i := g.In(1, 2); i > 0; i-- {
		var ops []Op
		for n := g.In(1, 3); n > 0; n-- {
			op := Op{K: g.PickS("watch", "watch", "unwatch"), D: g.Log(1, span)}
			if len(ops) == 0 {
				op.K = "watch"
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	if g.P(2) {
		genFaults(g, p, 3, 2*span, "reset", "reset", "cut", "hold", "dialfail", "slowdial", "partition", "edown", "eerr", "elost")
		for i := range p.Faults {
			f := &p.Faults[i]
			switch f.Kind {
			case "edown", "eerr":
				f.Dur = g.Log(1000, 10_000_000)
			case "partition", "hold":
				f.Dur = g.Log(1000, 10_000_000)
			case "elost":
				f.N = g.In(1, 3)
			}
		}
	}
}

type etcdLease struct {
	id       int64
	ttl      int64
	deadline time.Time
	keys     map[string]bool
	tag      string
}

type etcdEv struct {
	at  time.Duration
	rev int64
	ev  *mvccpb.Event
}

type etcdStub struct {
	pb.UnimplementedKVServer
	pb.UnimplementedLeaseServer
	pb.UnimplementedWatchServer
	r       *Run
	rev     int64
	kvs     map[string]*mvccpb.KeyValue
	log     []etcdEv
	leases  map[int64]*etcdLease
	nlease  int64
	streams map[int]chan struct{}
	nstream int
	errTo   time.Time
	lost    int
	tags    map[string]string // remote address of a connection: its process
	reset   func(tag string)
	onPut   func(kv *mvccpb.KeyValue, old *mvccpb.KeyValue, tag string)
	onLease func(l *etcdLease)
}

func (s *etcdStub) hdr() *pb.ResponseHeader { return &pb.ResponseHeader{ClusterId: 1, MemberId: 1, Revision: s.rev, RaftTerm: 2} }

func (s *etcdStub) tag(ctx context.Context) string {
	if p, ok := peer.FromContext(ctx); ok {
		return s.tags[p.Addr.String()]
	}
	return ""
}

// before and after wrap every unary request
func (s *etcdStub) intercept(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
	s.r.ev("etcd:" + info.FullMethod[strings.LastIndexByte(info.FullMethod, '/')+1:])
	if time.Now().Before(s.errTo) {
		s.r.fault("eerr-reply")
		return nil, status.Error(codes.Unavailable, "etcdserver: no leader")
	}
	rsp, err := h(ctx, req)
	if s.lost > 0 && !strings.HasSuffix(info.FullMethod, "/Range") {
		s.lost--
		s.r.fault("elost")
		s.reset(s.tag(ctx))
	}
	return rsp, err
}

func (s *etcdStub) put(key, val []byte, lease int64, tag string) *mvccpb.KeyValue {
	s.rev++
	old := s.kvs[string(key)]
	kv := &mvccpb.KeyValue{Key: key, Value: val, Lease: lease, CreateRevision: s.rev, ModRevision: s.rev, Version: 1}
	if old != nil {
		kv.CreateRevision, kv.Version = old.CreateRevision, old.Version+1
		if l := s.leases[old.Lease]; l != nil {
			delete(l.keys, string(key))
		}
	}
	s.onPut(kv, old, tag)
	s.kvs[string(key)] = kv
	if l := s.leases[lease]; l != nil {
		l.keys[string(key)] = true
	}
	s.log = append(s.log, etcdEv{s.r.Now(), s.rev, &mvccpb.Event{Type: mvccpb.PUT, Kv: kv}})
	s.notify()
	return old
}

// remove deletes keys in one revision
func (s *etcdStub) remove(keys []string) int {
	n := 0
	sort.Strings(keys)
	for _, k := range keys {
		kv := s.kvs[k]
		if kv == nil {
			continue
		}
		if n == 0 {
			s.rev++
		}
		n++
		if l := s.leases[kv.Lease]; l != nil {
			delete(l.keys, k)
		}
		delete(s.kvs, k)
		s.log = append(s.log, etcdEv{s.r.Now(), s.rev, &mvccpb.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: s.rev}}})
	}
	if n > 0 {
		s.notify()
	}
	return n
}

func (s *etcdStub) notify() {
	for i := 0; i < s.nstream; i++ {
		if ch := s.streams[i]; ch != nil {
			select {
			case ch <- struct{}{}:
			default:
			}
		}
	}
}

func inRange(k, key, end []byte) bool {
	if len(end) == 0 {
		return bytes.Equal(k, key)
	}
	if len(end) == 1 && end[0] == 0 {
		return bytes.Compare(k, key) >= 0
	}
	return bytes.Compare(k, key) >= 0 && bytes.Compare(k, end) < 0
}

func (s *etcdStub) Range(ctx context.Context, q *pb.RangeRequest) (*pb.RangeResponse, error) {
	var kvs []*mvccpb.KeyValue
	for _, k := range sortedKeys(s.kvs) {
		kv := s.kvs[k]
		if !inRange([]byte(k), q.Key, q.RangeEnd) || q.MaxCreateRevision > 0 && kv.CreateRevision > q.MaxCreateRevision || q.MinCreateRevision > 0 && kv.CreateRevision < q.MinCreateRevision ||
			q.MaxModRevision > 0 && kv.ModRevision > q.MaxModRevision || q.MinModRevision > 0 && kv.ModRevision < q.MinModRevision {
			continue
		}
		kvs = append(kvs, kv)
	}
	var less func(a, b *mvccpb.KeyValue) bool
	switch q.SortTarget {
	case pb.RangeRequest_CREATE:
		less = func(a, b *mvccpb.KeyValue) bool { return a.CreateRevision < b.CreateRevision }
	case pb.RangeRequest_MOD:
		less = func(a, b *mvccpb.KeyValue) bool { return a.ModRevision < b.ModRevision }
	default:
		less = func(a, b *mvccpb.KeyValue) bool { return bytes.Compare(a.Key, b.Key) < 0 }
	}
	switch q.SortOrder {
	case pb.RangeRequest_ASCEND:
		sort.SliceStable(kvs, func(i, j int) bool { return less(kvs[i], kvs[j]) })
	case pb.RangeRequest_DESCEND:
		sort.SliceStable(kvs, func(i, j int) bool { return less(kvs[j], kvs[i]) })
	}
	rsp := &pb.RangeResponse{Header: s.hdr(), Count: int64(len(kvs))}
	if q.Limit > 0 && int64(len(kvs)) > q.Limit {
		kvs, rsp.More = kvs[:q.Limit], true
	}
	if !q.CountOnly {
		rsp.Kvs = kvs
	}
	return rsp, nil
}

func (s *etcdStub) Put(ctx context.Context, q *pb.PutRequest) (*pb.PutResponse, error) {
	if q.Lease != 0 && s.leases[q.Lease] == nil {
		return nil, status.Error(codes.NotFound, "etcdserver: requested lease not found")
	}
	s.put(q.Key, q.Value, q.Lease, s.tag(ctx))
	return &pb.PutResponse{Header: s.hdr()}, nil
}

func (s *etcdStub) DeleteRange(ctx context.Context, q *pb.DeleteRangeRequest) (*pb.DeleteRangeResponse, error) {
	var ks []string
	for k := range s.kvs {
		if inRange([]byte(k), q.Key, q.RangeEnd) {
			ks = append(ks, k)
		}
	}
	n := s.remove(ks)
	return &pb.DeleteRangeResponse{Header: s.hdr(), Deleted: int64(n)}, nil
}

func (s *etcdStub) Txn(ctx context.Context, q *pb.TxnRequest) (*pb.TxnResponse, error) {
	ok := true
	for _, c := range q.Compare {
		kv := s.kvs[string(c.Key)]
		var have, want int64
		switch c.Target {
		case pb.Compare_CREATE:
			want = c.GetCreateRevision()
			if kv != nil {
				have = kv.CreateRevision
			}
		case pb.Compare_MOD:
			want = c.GetModRevision()
			if kv != nil {
				have = kv.ModRevision
			}
		case pb.Compare_VERSION:
			want = c.GetVersion()
			if kv != nil {
				have = kv.Version
			}
		case pb.Compare_LEASE:
			want = c.GetLease()
			if kv != nil {
				have = kv.Lease
			}
		case pb.Compare_VALUE:
			if kv == nil {
				ok = false
				continue
			}
			have = int64(bytes.Compare(kv.Value, c.GetValue()))
		}
		switch c.Result {
		case pb.Compare_EQUAL:
			ok = ok && have == want
		case pb.Compare_GREATER:
			ok = ok && have > want
		case pb.Compare_LESS:
			ok = ok && have < want
		case pb.Compare_NOT_EQUAL:
			ok = ok && have != want
		}
	}
	ops := q.Success
	if !ok {
		ops = q.Failure
	}
	for _, o := range ops {
		if p := o.GetRequestPut(); p != nil && p.Lease != 0 && s.leases[p.Lease] == nil {
			return nil, status.Error(codes.NotFound, "etcdserver: requested lease not found")
		}
	}
	rsp := &pb.TxnResponse{Succeeded: ok}
	for _, o := range ops {
		var x *pb.ResponseOp
		switch {
		case o.GetRequestPut() != nil:
			y, err := s.Put(ctx, o.GetRequestPut())
			if err != nil {
				return nil, err
			}
			x = &pb.ResponseOp{Response: &pb.ResponseOp_ResponsePut{ResponsePut: y}}
		case o.GetRequestRange() != nil:
			y, _ := s.Range(ctx, o.GetRequestRange())
			x = &pb.ResponseOp{Response: &pb.ResponseOp_ResponseRange{ResponseRange: y}}
		case o.GetRequestDeleteRange() != nil:
			y, _ := s.DeleteRange(ctx, o.GetRequestDeleteRange())
			x = &pb.ResponseOp{Response: &pb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: y}}
		default:
			return nil, status.Error(codes.Unimplemented, "nested transaction")
		}
		rsp.Responses = append(rsp.Responses, x)
	}
	rsp.Header = s.hdr()
	return rsp, nil
}

func (s *etcdStub) LeaseGrant(ctx context.Context, q *pb.LeaseGrantRequest) (*pb.LeaseGrantResponse, error) {
	ttl := max(q.TTL, 2)
	id := q.ID
	if id == 0 {
		s.nlease++
		id = 0x7000 + s.nlease
	}
	s.leases[id] = &etcdLease{id: id, ttl: ttl, deadline: time.Now().Add(time.Duration(ttl) * time.Second), keys: map[string]bool{}, tag: s.tag(ctx)}
	return &pb.LeaseGrantResponse{Header: s.hdr(), ID: id, TTL: ttl}, nil
}

func (s *etcdStub) endLease(l *etcdLease) {
	var ks []string
	for k := range l.keys {
		ks = append(ks, k)
	}
	s.remove(ks)
	delete(s.leases, l.id)
}

func (s *etcdStub) LeaseRevoke(ctx context.Context, q *pb.LeaseRevokeRequest) (*pb.LeaseRevokeResponse, error) {
	l := s.leases[q.ID]
	if l == nil {
		return nil, status.Error(codes.NotFound, "etcdserver: requested lease not found")
	}
	s.endLease(l)
	return &pb.LeaseRevokeResponse{Header: s.hdr()}, nil
}

func (s *etcdStub) LeaseTimeToLive(ctx context.Context, q *pb.LeaseTimeToLiveRequest) (*pb.LeaseTimeToLiveResponse, error) {
	l := s.leases[q.ID]
	if l == nil {
		return &pb.LeaseTimeToLiveResponse{Header: s.hdr(), ID: q.ID, TTL: -1}, nil
	}
	return &pb.LeaseTimeToLiveResponse{Header: s.hdr(), ID: q.ID, TTL: int64(time.Until(l.deadline) / time.Second), GrantedTTL: l.ttl}, nil
}

func (s *etcdStub) LeaseKeepAlive(st pb.Lease_LeaseKeepAliveServer) error {
	for {
		q, err := st.Recv()
		if err != nil {
			return nil
		}
		if time.Now().Before(s.errTo) {
			s.r.fault("eerr-reply")
			return status.Error(codes.Unavailable, "etcdserver: no leader")
		}
		rsp := &pb.LeaseKeepAliveResponse{Header: s.hdr(), ID: q.ID}
		if l := s.leases[q.ID]; l != nil {
			l.deadline = time.Now().Add(time.Duration(l.ttl) * time.Second)
			rsp.TTL = l.ttl
		}
		s.r.ev("etcd:keepalive")
		if err := st.Send(rsp); err != nil {
			return nil
		}
	}
}

// expire ends the leases that are over, like etcd twice a second.
func (s *etcdStub) expire() {
	var ls []*etcdLease
	for _, l := range s.leases {
		if time.Now().After(l.deadline) {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		s.r.ev("etcd:expired", int(l.id))
		s.onLease(l)
		s.endLease(l)
	}
}

type etcdWatch struct {
	id       int64
	key, end []byte
	next     int
}

func (s *etcdStub) Watch(st pb.Watch_WatchServer) error {
	n := s.nstream
	s.nstream++
	ch := make(chan struct{}, 1)
	s.streams[n] = ch
	defer delete(s.streams, n)
	poke := func() {
		select {
		case ch <- struct{}{}:
		default:
		}
	}
	var ctl []*pb.WatchResponse
	var ws []*etcdWatch
	nid := int64(0)
	done := false
	go func() {
		defer poke()
		for {
			q, err := st.Recv()
			if err != nil {
				done = true
				return
			}
			if c := q.GetCreateRequest(); c != nil {
				w := &etcdWatch{id: c.WatchId, key: c.Key, end: c.RangeEnd, next: len(s.log)}
				if w.id == 0 {
					w.id = nid
					nid++
				}
				if c.StartRevision > 0 {
					w.next = sort.Search(len(s.log), func(i int) bool { return s.log[i].rev >= c.StartRevision })
				}
				ws = append(ws, w)
				s.r.ev("etcd:watch")
				ctl = append(ctl, &pb.WatchResponse{Header: s.hdr(), WatchId: w.id, Created: true})
			}
			if c := q.GetCancelRequest(); c != nil {
				for i, w := range ws {
					if w.id == c.WatchId {
						ws = append(ws[:i:i], ws[i+1:]...)
						ctl = append(ctl, &pb.WatchResponse{Header: s.hdr(), WatchId: c.WatchId, Canceled: true})
						break
					}
				}
			}
			if q.GetProgressRequest() != nil {
				ctl = append(ctl, &pb.WatchResponse{Header: s.hdr(), WatchId: -1})
			}
			poke()
		}
	}()
	for !done {
		var out []*pb.WatchResponse
		out, ctl = ctl, nil
		for _, w := range ws {
			// all events of a revision come together
			rsp := &pb.WatchResponse{Header: s.hdr(), WatchId: w.id}
			for ; w.next < len(s.log); w.next++ {
				if e := s.log[w.next].ev; inRange(e.Kv.Key, w.key, w.end) {
					rsp.Events = append(rsp.Events, e)
				}
			}
			if len(rsp.Events) > 0 {
				out = append(out, rsp)
			}
		}
		for _, x := range out {
			if err := st.Send(x); err != nil {
				return nil
			}
		}
		if len(out) == 0 {
			select {
			case <-ch:
			case <-st.Context().Done():
				return nil
			}
		}
	}
	return nil
}

// etcdMgr records what one discovery reports.
type etcdMgr struct {
	r     *Run
	tag   string
	have  map[string]string
	n     int
	from  time.Duration // NewDiscovery returned
	stopT time.Duration
	add   func(m *etcdMgr, path, val string)
}

func (m *etcdMgr) late() {
	m.n++
	if d := m.r.Plan.K("late"); d > 0 && m.n%3 == 0 {
		time.Sleep(us(NewRng(m.r.Plan.Seed, 0x1a7e, uint64(m.n)).N(d)))
	}
}

func (m *etcdMgr) AddServiceNodes(path, value string) {
	m.r.count("reported")
	m.r.ev("report-add")
	m.late()
	m.add(m, path, value)
	m.have[path] = value
}
func (m *etcdMgr) DeleteServiceNodes(path string) {
	m.r.ev("report-del")
	m.late()
	delete(m.have, path)
}
func (m *etcdMgr) ClientBy(string) (*arpc.Client, error) { return nil, errors.New("unused") }

type etcdProc struct {
	key     string
	val     string
	tag     string
	reg     *metcd.Register
	called  time.Duration
	started time.Duration
	ended   time.Duration
	gone    time.Duration
	crashed bool
	failed  bool
	expired bool // its lease ended without it
	ttl     time.Duration
}

func execC33(r *Run) {
	grpcRand = rand.New(rand.NewSource(int64(r.Plan.Seed)))
	base := runtime.VerifBubbleTotal()
	const prefix = "app/"
	dead := map[string]bool{}
	s := &etcdStub{r: r, rev: 1, kvs: map[string]*mvccpb.KeyValue{}, leases: map[int64]*etcdLease{}, streams: map[int]chan struct{}{}, tags: map[string]string{}}
	ln := r.Net.Listen("etcd")
	down := false
	s.reset = func(tag string) {
		for _, l := range r.Net.linksOf(tag) {
			l.reset(errReset)
		}
	}
	net.VerifDial = func(network, addr string) (net.Conn, error) {
		tag := strings.TrimSuffix(addr, ":2379")
		if dead[tag] || down {
			time.Sleep(time.Millisecond)
			return nil, errRefused
		}
		c, err := r.Net.dial("etcd", tag)
		if err == nil {
			if dead[tag] {
				c.Close()
				return nil, errRefused
			}
			s.tags[c.LocalAddr().String()] = tag
		}
		return c, err
	}
	gs := grpc.NewServer(grpc.UnaryInterceptor(s.intercept))
	pb.RegisterKVServer(gs, s)
	pb.RegisterLeaseServer(gs, s)
	pb.RegisterWatchServer(gs, s)
	go gs.Serve(ln)
	finished := false
	go func() {
		for !finished && r.V == nil {
			s.expire()
			time.Sleep(500 * time.Millisecond)
		}
	}()
	for i := range r.faults {
		f := &r.faults[i]
		if len(f.Kind) == 0 || f.Kind[0] != 'e' {
			continue
		}
		time.AfterFunc(us(f.At), func() {
			if f.done || r.stopped {
				return
			}
			f.done = true
			r.fault(f.Kind)
			switch f.Kind {
			case "eerr":
				s.errTo = time.Now().Add(us(f.Dur))
			case "elost":
				s.lost += f.N
			case "edown":
				down = true
				for _, l := range r.Net.links {
					l.reset(errReset)
				}
				time.AfterFunc(us(f.Dur), func() {
					down = false
					for _, l := range s.leases { // a new leader gives every lease its time again
						l.deadline = time.Now().Add(time.Duration(l.ttl) * time.Second)
					}
				})
			}
		})
	}
	key := func(i int) string { return fmt.Sprintf("%ssvc%d/10.0.0.%d:80", prefix, i%2, i) }
	var procs []*etcdProc
	var mgrs []*etcdMgr
	puts := map[string]bool{}
	lapsed := false // a live process lost a lease
	byTag := map[string]*etcdProc{}
	s.onLease = func(l *etcdLease) {
		if !dead[l.tag] {
			if p := byTag[l.tag]; p != nil {
				p.expired = true
			}
			for k := range l.keys {
				if !strings.HasPrefix(k, prefix) {
					lapsed = true
				}
			}
		}
	}
	s.onPut = func(kv, old *mvccpb.KeyValue, tag string) {
		if !strings.HasPrefix(string(kv.Key), prefix) {
			return
		}
		puts[string(kv.Key)+"="+string(kv.Value)] = true
		if old != nil && old.Lease != kv.Lease && !lapsed {
			r.Fail("overwritten", "%s was registered by %s while it was registered already", kv.Key, tag)
		}
	}
	add := func(m *etcdMgr, path, val string) {
		if !puts[path+"="+val] {
			r.Fail("phantom", "discovery added %s with weight %q, which nobody registered", path, val)
		}
		if m.stopT > 0 && r.Now() > m.stopT+time.Minute {
			r.Fail("after-stop", "discovery %s reported %s long after it was stopped", m.tag, path)
		}
	}
	na := len(r.Plan.Actors)
	cur := make([]*etcdProc, na)
	ds := make([]*metcd.Discovery, na)
	ms := make([]*etcdMgr, na)
	crash := func(p *etcdProc) {
		if p.crashed {
			return
		}
		if p.ended == 0 {
			p.ended = r.Now()
		}
		p.crashed = true
		dead[p.tag] = true
		r.count("crashed")
		s.reset(p.tag)
	}
	seq := 0
	run := func(a, i int, op Op) {
		switch op.K {
		case "start":
			if cur[a] != nil {
				return
			}
			seq++
			p := &etcdProc{key: key(op.A), val: strconv.Itoa(op.B), tag: fmt.Sprintf("reg%d-%d", a, seq), called: r.Now(), ttl: time.Duration(max(op.C, 2)) * time.Second}
			procs = append(procs, p)
			byTag[p.tag] = p
			ret := make(chan struct{}, 2)
			if op.F > 0 {
				time.AfterFunc(us(op.F), func() {
					if p.started == 0 && !p.failed {
						crash(p)
						ret <- struct{}{}
					}
				})
			}
			var reg *metcd.Register
			var err error
			go func() {
				reg, err = metcd.NewRegister([]string{p.tag + ":2379"}, p.key, p.val, int64(op.C))
				ret <- struct{}{}
			}()
			<-ret
			if p.crashed {
				return
			}
			if err != nil || reg == nil {
				p.failed = true
				r.count("register_failed")
				if err == nil {
					r.Fail("nil", "NewRegister of %s returned neither a register nor an error", p.key)
				}
				if len(r.Fired) == 0 {
					// somebody else must have had it meanwhile
					ok := false
					on := time.Duration(-1)
					for _, e := range s.log {
						if string(e.ev.Kv.Key) != p.key {
							continue
						}
						if e.ev.Type == mvccpb.PUT {
							on = e.at
						} else {
							ok = ok || on >= 0 && e.at >= p.called
							on = -1
						}
					}
					if ok = ok || on >= 0; !ok {
						r.Fail("register", "NewRegister of %s failed though nobody else had it: %v", p.key, err)
					}
					r.count("exists")
				}
				return
			}
			p.reg = reg
			p.started = r.Now()
			cur[a] = p
			r.count("registered")
		case "stop":
			p := cur[a]
			if p == nil {
				return
			}
			cur[a] = nil
			p.ended = r.Now()
			var err error
			if !within(10*time.Minute, func() { err = p.reg.Stop() }) {
				r.Fail("stop", "Stop of a register did not return in 10 minutes")
				return
			}
			if err == nil {
				p.gone = r.Now()
				r.count("stopped")
			} else if len(r.Fired) == 0 {
				r.Fail("stop", "Stop of a register failed: %v", err)
			}
		case "crash":
			if p := cur[a]; p != nil {
				cur[a] = nil
				crash(p)
			}
		case "watch":
			if ds[a] != nil {
				return
			}
			seq++
			m := &etcdMgr{r: r, tag: fmt.Sprintf("dis%d-%d", a, seq), have: map[string]string{}, add: add}
			n0 := len(s.log)
			before := map[string]bool{}
			for k := range s.kvs {
				if strings.HasPrefix(k, prefix) {
					before[k] = true
				}
			}
			d, err := metcd.NewDiscovery([]string{m.tag + ":2379"}, prefix, m)
			if err != nil || d == nil {
				if err == nil {
					r.Fail("nil", "NewDiscovery returned neither a discovery nor an error")
				}
				if len(r.Fired) == 0 {
					r.Fail("discovery", "NewDiscovery failed: %v", err)
				}
				r.count("discovery_failed")
				return
			}
			for _, e := range s.log[n0:] {
				delete(before, string(e.ev.Kv.Key))
			}
			for _, k := range sortedKeys(before) {
				if _, ok := m.have[k]; !ok {
					r.Fail("first", "NewDiscovery succeeded and did not report %s, which was registered before", k)
				}
			}
			m.from = r.Now()
			mgrs = append(mgrs, m)
			ds[a], ms[a] = d, m
			r.count("watching")
		case "unwatch":
			if ds[a] == nil {
				return
			}
			d, m := ds[a], ms[a]
			ds[a], ms[a] = nil, nil
			if !within(time.Minute, func() { d.Stop() }) {
				r.Fail("stop", "Stop of a discovery did not return in a minute")
			}
			m.stopT = r.Now()
		}
	}
	slack := 2*time.Second + us(40*r.Plan.Net.DelayMax)
	lastEv := func(k string) (time.Duration, bool) {
		for i := len(s.log) - 1; i >= 0; i-- {
			if string(s.log[i].ev.Kv.Key) == k {
				return s.log[i].at, s.log[i].ev.Type == mvccpb.PUT
			}
		}
		return 0, false
	}
	watch := func() {
		for _, p := range procs {
			kv := s.kvs[p.key]
			switch {
			case len(r.Fired) > 0 || p.failed || p.started == 0:
			case p.ended == 0:
				if kv == nil || string(kv.Value) != p.val {
					r.Fail("not-registered", "%s is registered and running, but the registry has %v", p.key, kv)
				}
			case p.gone > 0 || p.crashed && r.Now() > p.ended+p.ttl+time.Second:
				other := kv == nil
				for _, q := range procs {
					other = other || q != p && q.key == p.key && q.gone == 0 && !q.failed
				}
				if !other {
					r.Fail("ghost", "%s ended at %v, but the registry has it at %v", p.key, p.ended, r.Now())
				}
			}
		}
		if len(r.Fired) > 0 || r.Plan.K("late") > 0 {
			return
		}
		for _, m := range mgrs {
			if m.stopT > 0 || r.Now() < m.from+slack {
				continue
			}
			for i := 0; i < r.Plan.K("_keys"); i++ {
				at, has := lastEv(key(i))
				if _, ok := m.have[key(i)]; ok != has && r.Now() > at+slack {
					r.Fail("late", "%s changed at %v (registered: %v), discovery %s has not noticed at %v", key(i), at, has, m.tag, r.Now())
				}
			}
		}
	}
	go func() {
		for !finished && r.V == nil {
			watch()
			time.Sleep(333 * time.Millisecond)
		}
	}()
	if !r.actors(30*time.Minute, run) {
		r.Fail("hang", "a register or discovery call did not return in 30 minutes")
		return
	}
	if last := r.Now(); last < us(60_000_000) && len(r.faults) > 0 {
		time.Sleep(us(60_000_000) - last)
	}
	r.quell()
	s.errTo, s.lost, down = time.Time{}, 0, false
	time.Sleep(2 * time.Minute)
	check := func(what string) {
		for _, m := range mgrs {
			if m.stopT > 0 {
				continue
			}
			for i := 0; i < r.Plan.K("_keys"); i++ {
				kv := s.kvs[key(i)]
				_, ok := m.have[key(i)]
				if ok && kv == nil {
					r.Fail("stale", "%s is not registered, discovery %s still has it %s", key(i), m.tag, what)
				}
				if !ok && kv != nil {
					r.Fail("missing", "%s is registered, discovery %s does not have it %s", key(i), m.tag, what)
				}
			}
		}
	}
	check("two minutes after the last fault")
	for _, p := range procs {
		if p.started > 0 && p.ended == 0 && !p.expired && s.kvs[p.key] == nil {
			r.Fail("not-registered", "%s is registered and running and its lease has not expired, but the registry does not have it", p.key)
		}
	}
	// nothing blocks a new service
	p := &etcdProc{key: prefix + "last/10.0.0.9:80", val: "1", tag: "last"}
	var reg *metcd.Register
	var err error
	if !within(2*time.Minute, func() { reg, err = metcd.NewRegister([]string{"last:2379"}, p.key, p.val, 10) }) {
		r.Fail("blocked", "NewRegister of another service does not return on a healthy network")
		return
	}
	if err != nil || reg == nil {
		r.Fail("blocked", "NewRegister of another service fails on a healthy network: %v", err)
		return
	}
	time.Sleep(slack + us(3*r.Plan.K("late")))
	for _, m := range mgrs {
		if _, ok := m.have[p.key]; !ok && m.stopT == 0 {
			r.Fail("missing", "discovery %s does not report a new service on a healthy network", m.tag)
		}
	}
	reg.Stop()
	time.Sleep(slack + us(3*r.Plan.K("late")))
	check("at the end")
	for _, m := range mgrs {
		if _, ok := m.have[p.key]; ok && m.stopT == 0 {
			r.Fail("stale", "discovery %s still has a service that was stopped", m.tag)
		}
	}
	clear(dead)
	time.Sleep(2 * time.Minute)
	clean := true
	for _, p := range procs {
		if p.reg == nil || p.gone > 0 {
			clean = clean && (p.gone > 0 || p.failed)
			continue
		}
		p.ended = r.Now()
		if err := p.reg.Stop(); err != nil {
			clean = false // its lease is over
		}
	}
	for _, d := range ds {
		if d != nil {
			d.Stop()
		}
	}
	finished = true
	time.Sleep(2 * time.Minute)
	for _, l := range r.Net.links {
		if clean && !l.ends[0].closed {
			r.Fail("conn-leak", "a connection of %s is still open after everything was stopped", l.Tag)
			break
		}
	}
	gs.Stop()
	if clean {
		r.leakCheck(base, time.Minute)
	}
}
