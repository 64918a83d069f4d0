package main

// Driving the receiver: a real server on a loopback socket, a recording
// storage, a client, and a model of what the receiver owes its peer.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// ---- recording storage ---------------------------------------------------------

type recStore struct {
	mu    sync.Mutex
	saves []storage.NavRecord
	calls int
	other []string                                // records that are not NavRecords
	hook  func(n int, r *storage.NavRecord) error // n-th call, from 0; may block
}

func cloneNav(n *storage.NavRecord) storage.NavRecord {
	c := *n
	c.AnSensors = append([]storage.AnSensor(nil), n.AnSensors...)
	c.LiquidSensors = append([]storage.LiquidSensor(nil), n.LiquidSensors...)
	c.LocStates = append([]storage.LocState(nil), n.LocStates...)
	return c
}

func (s *recStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	rec, ok := m.(*storage.NavRecord)
	s.mu.Lock()
	n := s.calls
	s.calls++
	hook := s.hook
	if !ok || rec == nil {
		s.other = append(s.other, fmt.Sprintf("%T", m))
		s.mu.Unlock()
		return nil
	}
	c := cloneNav(rec)
	s.mu.Unlock()
	if hook != nil {
		if err := hook(n, &c); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.saves = append(s.saves, c)
	s.mu.Unlock()
	return nil
}

func (s *recStore) stored() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.saves)
}

func (s *recStore) snapshot() ([]storage.NavRecord, []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]storage.NavRecord(nil), s.saves...), append([]string(nil), s.other...)
}

// ---- server ----------------------------------------------------------------------

type testServer struct {
	addr  string
	store *recStore
	srv   server.Server
	done  chan struct{} // Run returned
}

var fatalExits atomic.Int32

func quietLogs(string) error {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.DebugLevel)
	return nil
}

var ipCounter atomic.Uint32

// freeAddr picks a loopback address nothing listens on.
func freeAddr() (string, error) {
	var last error
	for i := 0; i < 50; i++ {
		n := ipCounter.Add(1)*2654435761 ^ uint32(syscall.Getpid())*40503 ^ uint32(time.Now().UnixNano())
		ip := fmt.Sprintf("127.%d.%d.%d", 1+n>>8%250, n>>16%256, 1+n>>24%250)
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			last = err
			continue
		}
		a := l.Addr().String()
		l.Close()
		return a, nil
	}
	return "", last
}

// startServer runs a server and waits until it accepts connections.
func startServer(ttl time.Duration, stores ...storage.Saver) (*testServer, error) {
	repo := storage.NewRepository()
	ts := &testServer{store: &recStore{}}
	if len(stores) == 0 {
		repo.AddStore(ts.store)
	}
	for _, s := range stores {
		repo.AddStore(s)
	}
	for try := 0; try < 5; try++ {
		addr, err := freeAddr()
		if err != nil {
			return nil, err
		}
		ts.addr = addr
		ts.srv = server.New(addr, ttl, repo)
		ts.done = make(chan struct{})
		go func() {
			defer close(ts.done)
			ts.srv.Run()
		}()
		end := time.Now().Add(10 * time.Second)
		for time.Now().Before(end) {
			c, err := net.DialTimeout("tcp", addr, 2*time.Second)
			if err == nil {
				c.Close()
				return ts, nil
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	return nil, errors.New("the server does not accept connections")
}

func (ts *testServer) stop() { _ = ts.srv.Stop() }

// withServer runs f against a fresh server.
func withServer(r *Rec, ttl time.Duration, f func(ts *testServer) *Failure) *Failure {
	ts, err := startServer(ttl)
	if err != nil {
		return softf("server start: %v", err)
	}
	defer ts.stop()
	return f(ts)
}

const longTTL = 60 * time.Second
const ioLimit = 8 * time.Second

// ---- client ------------------------------------------------------------------------

type client struct {
	c     *net.TCPConn
	mu    sync.Mutex
	cond  *sync.Cond
	got   []byte
	ended bool
	reset bool
	endAt time.Time
	err   error
}

func dial(addr string) (*client, error) {
	c, err := net.DialTimeout("tcp", addr, ioLimit)
	if err != nil {
		return nil, err
	}
	cl := &client{c: c.(*net.TCPConn)}
	cl.cond = sync.NewCond(&cl.mu)
	go cl.reader()
	return cl, nil
}

func (c *client) reader() {
	buf := make([]byte, 32<<10)
	for {
		n, err := c.c.Read(buf)
		c.mu.Lock()
		c.got = append(c.got, buf[:n]...)
		if err != nil {
			c.ended, c.endAt = true, time.Now()
			if err != io.EOF {
				c.err = err
				c.reset = errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE)
			}
			c.cond.Broadcast()
			c.mu.Unlock()
			return
		}
		c.cond.Broadcast()
		c.mu.Unlock()
	}
}

func (c *client) send(b []byte) error {
	_ = c.c.SetWriteDeadline(time.Now().Add(ioLimit))
	_, err := c.c.Write(b)
	return err
}

// sendCut writes the stream in pieces ending at the cuts, pausing in between.
func (c *client) sendCut(b []byte, cuts []int, pause time.Duration) error {
	at := 0
	for _, x := range cuts {
		if x <= at || x >= len(b) {
			continue
		}
		if err := c.send(b[at:x]); err != nil {
			return err
		}
		at = x
		if pause > 0 {
			time.Sleep(pause)
		}
	}
	if at < len(b) {
		return c.send(b[at:])
	}
	return nil
}

func (c *client) wait(limit time.Duration, cond func() bool) bool {
	stop := time.AfterFunc(limit, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer stop.Stop()
	end := time.Now().Add(limit)
	c.mu.Lock()
	defer c.mu.Unlock()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (c *client) waitEnd(limit time.Duration) bool {
	return c.wait(limit, func() bool { return c.ended })
}

// waitPackets waits until n whole packets have arrived (or the connection ends).
func (c *client) waitPackets(n int, limit time.Duration) bool {
	ok := false
	c.wait(limit, func() bool {
		ok = countFrames(c.got) >= n
		return ok || c.ended
	})
	return ok
}

func (c *client) bytes() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.got...)
}

func (c *client) hasEnded() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ended
}

func (c *client) abort() { _ = c.c.SetLinger(0); c.c.Close() }

func countFrames(b []byte) int {
	n := 0
	for len(b) >= 11 {
		l := int(b[3])
		if fdl := int(b[5]) | int(b[6])<<8; fdl > 0 {
			l += fdl + 2
		}
		if l < 11 || len(b) < l {
			break
		}
		b = b[l:]
		n++
	}
	return n
}

// exchange sends the stream, ends its side and reads everything the server says.
func exchange(addr string, stream []byte, cuts []int, pause time.Duration) ([]byte, *Failure) {
	c, err := dial(addr)
	if err != nil {
		return nil, softf("a new connection is not accepted: %v", err)
	}
	defer c.c.Close()
	_ = c.sendCut(stream, cuts, pause)
	_ = c.c.CloseWrite()
	if !c.waitEnd(ioLimit) {
		return c.bytes(), softf("the server has not finished the connection %v after the client's end of data", ioLimit)
	}
	return c.bytes(), nil
}

// ---- model of the receiver -----------------------------------------------------------

type xReply struct {
	Kind    string // ack, nack, auth
	RPID    uint16
	AnyRPID bool
	CRN     []uint16
	Svc     []uint8 // services of the records confirmed
}

type xGroup struct { // one stored record
	OID  uint32
	PID  uint16
	IMEI []byte
	Pos  []*MPos
	An   []storage.AnSensor
	Liq  []*MLiq
	Num  uint32
	NumX bool
}

type xOut struct {
	Replies []xReply
	Groups  []xGroup
}

// owes gives what the receiver owes for one intact or damaged packet.
func owes(b []byte) (o xOut, err error) {
	p, _, err := refDecode(b)
	if err != nil {
		if isErr(err, errLoose) {
			return o, err
		}
		hdr := isErr(err, errHeaderForm) || isErr(err, errHeaderCRC)
		o.Replies = append(o.Replies, xReply{Kind: "nack", RPID: p.PID, AnyRPID: hdr})
		return o, nil
	}
	if p.PT == 0 {
		return o, nil
	}
	var crn []uint16
	var svc []uint8
	auth, resp, pos := false, false, false
	g := xGroup{PID: p.PID}
	flush := func() {
		if len(g.Pos) > 0 {
			o.Groups = append(o.Groups, g)
		}
	}
	for i := range p.App {
		rec := &p.App[i]
		crn = append(crn, rec.RN)
		if bytes.IndexByte(svc, rec.SST) < 0 {
			svc = append(svc, rec.SST)
		}
		if rec.OID != nil {
			if *rec.OID != g.OID && (g.OID != 0 || len(g.Pos) > 0) {
				flush()
				g = xGroup{PID: p.PID}
			}
			g.OID = *rec.OID
		}
		num, numX := uint32(0), false
		for j := range rec.Subs {
			s := &rec.Subs[j]
			switch {
			case s.Auth != nil:
				auth = true
			case s.Term != nil:
				auth = true
				g.IMEI = s.Term.IMEI
			case s.Resp != nil:
				resp = true
			case s.Pos != nil:
				pos = true
				g.Pos = append(g.Pos, s.Pos)
			case s.Ad != nil:
				for k, v := range s.Ad.AN {
					if v != nil {
						g.An = append(g.An, storage.AnSensor{SensorNumber: uint8(k + 1), Value: *v})
					}
				}
			case s.AbsAn != nil:
				g.An = append(g.An, storage.AnSensor{SensorNumber: s.AbsAn.N, Value: s.AbsAn.V})
			case s.AbsCnt != nil:
				if s.AbsCnt.N == 110 {
					num, numX = num&0xFF000000|s.AbsCnt.V&0xFFFFFF, true
				} else if s.AbsCnt.N == 111 {
					num, numX = num&0xFFFFFF|s.AbsCnt.V<<24, true
				}
			case s.Liq != nil:
				g.Liq = append(g.Liq, s.Liq)
			}
		}
		if numX {
			g.Num, g.NumX = num, true
		}
	}
	flush()
	if resp && !pos && !auth {
		return o, nil
	}
	o.Replies = append(o.Replies, xReply{Kind: "ack", RPID: p.PID, CRN: crn, Svc: svc})
	if auth {
		o.Replies = append(o.Replies, xReply{Kind: "auth"})
	}
	return o, nil
}

func (o *xOut) add(x xOut) {
	o.Replies = append(o.Replies, x.Replies...)
	o.Groups = append(o.Groups, x.Groups...)
}

// ---- comparing replies -----------------------------------------------------------------

func describe(x xReply) string {
	switch x.Kind {
	case "auth":
		return "authorization result 0"
	case "nack":
		return fmt.Sprintf("confirmation of packet %d with a non-zero result", x.RPID)
	}
	return fmt.Sprintf("confirmation of packet %d with result 0 and records %v", x.RPID, head1(x.CRN))
}

func head1(c []uint16) string {
	if len(c) > 12 {
		return fmt.Sprintf("%v…(%d)", c[:12], len(c))
	}
	return fmt.Sprint(c)
}

// diffReplies compares what came back with what was owed; "" when equal.
func diffReplies(got []byte, want []xReply) string { return diffRepliesOpt(got, want, false) }

// anyStatus: the records of a refused packet may have any status.
func diffRepliesOpt(got []byte, want []xReply, anyStatus bool) string {
	b := got
	i := 0
	for ; len(b) > 0; i++ {
		p, tail, err := refDecode(b)
		if err != nil {
			return fmt.Sprintf("reply %d is not a well-formed packet: %v (% x)", i, err, clip(b))
		}
		b = tail
		if i >= len(want) {
			return fmt.Sprintf("an additional reply: %s (% x)", js(p), clip(got))
		}
		if m := matchReply(&p, want[i], anyStatus); m != "" {
			return fmt.Sprintf("reply %d: %s; expected %s", i, m, describe(want[i]))
		}
	}
	if i < len(want) {
		return fmt.Sprintf("reply %d is missing: expected %s", i, describe(want[i]))
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func matchReply(p *MPkg, w xReply, anyStatus bool) string {
	if p.PRV != 1 || p.RTE || p.ENA != 0 || p.CMP != 0 {
		return "header of the reply: " + js(p)
	}
	if w.Kind == "auth" {
		if p.PT != 1 || len(p.App) != 1 || len(p.App[0].Subs) != 1 || p.App[0].Subs[0].RC == nil {
			return "not one application record with one result code: " + js(p)
		}
		if *p.App[0].Subs[0].RC != 0 {
			return fmt.Sprintf("result code %d", *p.App[0].Subs[0].RC)
		}
		if p.App[0].SST != 1 || p.App[0].RST != 1 {
			return fmt.Sprintf("service %d/%d instead of the authorization service", p.App[0].SST, p.App[0].RST)
		}
		return ""
	}
	if p.PT != 0 || p.Resp == nil {
		return fmt.Sprintf("packet type %d", p.PT)
	}
	if p.Resp.RPID != w.RPID && !w.AnyRPID {
		return fmt.Sprintf("it confirms packet %d", p.Resp.RPID)
	}
	var crn []uint16
	st := []byte{}
	for _, rec := range p.Resp.SDR {
		if w.Svc != nil && len(rec.Subs) > 0 && bytes.IndexByte(w.Svc, rec.SST) < 0 {
			return fmt.Sprintf("a confirmation of service %d for records of service %v", rec.SST, w.Svc)
		}
		for _, s := range rec.Subs {
			if s.Resp == nil {
				return "subrecord " + js(s) + " in a confirmation"
			}
			crn = append(crn, s.Resp.CRN)
			st = append(st, s.Resp.RST)
		}
	}
	if w.Kind == "nack" {
		if p.Resp.PR == 0 {
			return "result 0"
		}
		for i, s := range st {
			if s == 0 && !anyStatus {
				return fmt.Sprintf("record %d confirmed with status 0", crn[i])
			}
		}
		return ""
	}
	if p.Resp.PR != 0 {
		return fmt.Sprintf("result %d", p.Resp.PR)
	}
	if len(crn) != len(w.CRN) {
		return fmt.Sprintf("it confirms %d records %s", len(crn), head1(crn))
	}
	for i := range crn {
		if crn[i] != w.CRN[i] {
			return fmt.Sprintf("it confirms records %s", head1(crn))
		}
		if st[i] != 0 {
			return fmt.Sprintf("record %d has status %d", crn[i], st[i])
		}
	}
	return ""
}

// ---- comparing stored records ------------------------------------------------------------

const unitLat, unitLon = 90.0 / 0xFFFFFFFF, 180.0 / 0xFFFFFFFF

var egtsEpoch = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

func posTime(p *MPos) time.Time { return egtsEpoch.Add(time.Duration(p.NTM) * time.Second) }

func diffLoc(l storage.LocState, p *MPos) string {
	lat, lon := float64(p.LAT)*unitLat, float64(p.LONG)*unitLon
	if p.LAHS == 1 {
		lat = -lat
	}
	if p.LOHS == 1 {
		lon = -lon
	}
	if !(math.Abs(l.Latitude-lat) <= unitLat) {
		return fmt.Sprintf("latitude %v, sent %v", l.Latitude, lat)
	}
	if !(math.Abs(l.Longitude-lon) <= unitLon) {
		return fmt.Sprintf("longitude %v, sent %v", l.Longitude, lon)
	}
	if l.Speed != p.SPD/10 {
		return fmt.Sprintf("speed %d, sent %d", l.Speed, p.SPD/10)
	}
	t, err := time.Parse(time.RFC3339, l.NavigationDt)
	if err != nil {
		return fmt.Sprintf("navigation time %q: %v", l.NavigationDt, err)
	}
	if !t.Equal(posTime(p)) {
		return fmt.Sprintf("navigation time %s, sent %s", l.NavigationDt, posTime(p).Format(time.RFC3339))
	}
	return ""
}

type flatPos struct {
	oid uint32
	pos *MPos
}

func flatten(gs []xGroup) []flatPos {
	var out []flatPos
	for _, g := range gs {
		for _, p := range g.Pos {
			out = append(out, flatPos{g.OID, p})
		}
	}
	return out
}

// diffSaves compares the stored positions with those sent; "" when equal.
func diffSaves(saves []storage.NavRecord, other []string, want []flatPos) string {
	if len(other) > 0 {
		return "something else than a record was stored: " + strings.Join(other, ", ")
	}
	i := 0
	for k := range saves {
		s := &saves[k]
		if int(s.LocStatesCount) != len(s.LocStates) {
			return fmt.Sprintf("stored record %d: loc_states_count %d with %d positions", k, s.LocStatesCount, len(s.LocStates))
		}
		if len(s.LocStates) == 0 {
			return fmt.Sprintf("stored record %d (object %d) has no position", k, s.ClientID)
		}
		for _, l := range s.LocStates {
			if i >= len(want) {
				return fmt.Sprintf("an additional position was stored for object %d: %+v", s.ClientID, l)
			}
			if s.ClientID != want[i].oid {
				return fmt.Sprintf("position %d stored for object %d, sent for %d", i, s.ClientID, want[i].oid)
			}
			if d := diffLoc(l, want[i].pos); d != "" {
				return fmt.Sprintf("position %d (object %d): %s", i, s.ClientID, d)
			}
			i++
		}
		last := want[i-1].pos
		if s.NavigationTimestamp != posTime(last).Unix() {
			return fmt.Sprintf("stored record %d: navigation_unix_time %d, last position sent %d", k, s.NavigationTimestamp, posTime(last).Unix())
		}
	}
	if i < len(want) {
		return fmt.Sprintf("position %d (object %d) was not stored", i, want[i].oid)
	}
	return ""
}

// ---- generators of packet sequences ---------------------------------------------------------

// SItem is one packet of a stream, possibly damaged.
type SItem struct {
	Kind string
	Pkg  MPkg
	Fill int   `json:",omitempty"` // that many additional records, for large packets
	Flip []int `json:",omitempty"` // bit numbers to invert
}

func (it *SItem) Bytes() []byte {
	p := it.Pkg
	if it.Fill > 0 {
		p.App = append([]MRec(nil), p.App...)
		for i := 0; i < it.Fill; i++ {
			p.App = append(p.App, MRec{RN: uint16(1000 + i), SST: 2, RST: 2})
		}
	}
	b := p.Bytes()
	for _, n := range it.Flip {
		if len(b) > 0 {
			b[n/8%len(b)] ^= 1 << uint(n%8)
		}
	}
	return b
}

// subrecord types without influence on replies
var plainSubs = []byte{5, 15, 17, 18, 19, 20, 21, 24, 25, 27}
var dataSubs = []byte{16, 16, 16, 17, 18, 19, 20, 21, 24, 25, 27, 15}

// genItem draws one packet of the given kind.
// repeatRecs repeats records n times, as far as they fit into a packet.
func repeatRecs(rs []MRec, n int) []MRec {
	size := 0
	for i := range rs {
		size += len(rs[i].Bytes()) + 4 // room for an object identifier
	}
	if size == 0 {
		return rs
	}
	if max := 65000 / size; n > max {
		n = max
	}
	var all []MRec
	for k := 0; k < n; k++ {
		for _, r := range rs {
			r.RN += uint16(k)
			all = append(all, r)
		}
	}
	return all
}

func genItem(t *rapid.T, kind string) SItem {
	it := SItem{Kind: kind}
	o := genOpt{MaxRecs: 3, MaxSubs: 3, MaxStr: 12, PT: 1}
	switch kind {
	case "data": // anything with positions and sensors
		o.Subs = dataSubs
		it.Pkg = genPkg(t, o)
	case "plain":
		o.Subs = plainSubs
		it.Pkg = genPkg(t, o)
	case "auth": // identity or authorization, maybe with more
		o.Subs = []byte{1, 7, 1, 7, 16, 5, 18, 0, 9}
		it.Pkg = genPkg(t, o)
		rec := genRecHead(t)
		rec.Subs = []MSub{genSub(t, pick(t, []byte{1, 7}, "AUTH"), o.norm())}
		at := gInt(t, 0, len(it.Pkg.App), "at")
		it.Pkg.App = append(it.Pkg.App[:at:at], append([]MRec{rec}, it.Pkg.App[at:]...)...)
	case "mixed": // positions together with record confirmations
		o.Subs = []byte{0, 16, 0, 16, 24}
		it.Pkg = genPkg(t, o)
		rec := genRecHead(t)
		rec.Subs = []MSub{{T: 16, Pos: genPos(t, false)}}
		at := gInt(t, 0, len(it.Pkg.App), "at")
		it.Pkg.App = append(it.Pkg.App[:at:at], append([]MRec{rec}, it.Pkg.App[at:]...)...)
	case "confirm": // record confirmations only
		it.Pkg = genHeader(t, o)
		for i, n := 0, gInt(t, 1, 3, "recs"); i < n; i++ {
			rec := genRecHead(t)
			for j, m := 0, gInt(t, 1, 3, "subs"); j < m; j++ {
				rec.Subs = append(rec.Subs, genSub(t, 0, o.norm()))
			}
			it.Pkg.App = append(it.Pkg.App, rec)
		}
		if chance(t, 12, "many") {
			it.Pkg.App = repeatRecs(it.Pkg.App, gInt(t, 1, 2000, "times"))
		}
	case "response":
		o.PT = 0
		o.Subs = []byte{0}
		if chance(t, 3, "other contents") {
			o.Subs = append([]byte{0, 16, 1, 7}, allSubs...)
		}
		it.Pkg = genPkg(t, o)
		if it.Pkg.Resp != nil && chance(t, 12, "many") {
			it.Pkg.Resp.SDR = repeatRecs(it.Pkg.Resp.SDR, gInt(t, 1, 2000, "times"))
		}
	case "huge":
		o.Subs = dataSubs
		it.Pkg = genPkg(t, o)
		room := (65535 - len(it.Pkg.body())) / 7
		it.Fill = room
		if !gBool(t, "full") {
			it.Fill = gInt(t, 1, room, "fill")
		}
	case "bodydamage":
		o.Subs = dataSubs
		it.Pkg = genPkg(t, o)
		rec := genRecHead(t)
		rec.Subs = []MSub{{T: 16, Pos: genPos(t, false)}}
		it.Pkg.App = append(it.Pkg.App, rec)
		hl := 11
		if it.Pkg.RTE {
			hl = 16
		}
		n := len(it.Pkg.Bytes())
		at := gInt(t, hl*8, n*8-1, "bit")
		it.Flip = []int{at}
		for i := at + 1; i < at+16 && i < n*8; i++ {
			if gBool(t, "burst") {
				it.Flip = append(it.Flip, i)
			}
		}
	case "headdamage":
		o.Subs = dataSubs
		it.Pkg = genPkg(t, o)
		n := 11
		if it.Pkg.RTE {
			n = 16
		}
		var ok []int // not the bytes that frame the packet
		for i := 1; i < n; i++ {
			if i != 3 && i != 5 && i != 6 {
				ok = append(ok, i)
			}
		}
		at := pick(t, ok, "byte")
		x := gInt(t, 1, 255, "xor")
		for k := 0; k < 8; k++ {
			if x>>uint(k)&1 != 0 {
				it.Flip = append(it.Flip, at*8+k)
			}
		}
	case "garbage": // intact checksums around a body that is no record set
		it.Pkg = genHeader(t, o)
		it.Pkg.RawBody = genGarbageBody(t)
	case "othertype":
		it.Pkg = genHeader(t, o)
		it.Pkg.PT = byte(gInt(t, 2, 255, "PT"))
		it.Pkg.RawBody = gBytes(t, 0, 30, "body", false)
	default:
		panic("kind " + kind)
	}
	return it
}

// genGarbageBody draws a body that definitely is no record set.
func genGarbageBody(t *rapid.T) []byte {
	o := genOpt{Subs: dataSubs, MaxRecs: 2, MaxSubs: 3, MaxStr: 12, PT: 1}.norm()
	for i := 0; i < 8; i++ {
		b := encRecs(genRecs(t, o, 1))
		switch gInt(t, 0, 4, "how") {
		case 0:
			b = b[:gInt(t, 1, len(b), "cut")]
		case 1:
			b[gInt(t, 0, len(b)-1, "at")] ^= byte(gInt(t, 1, 255, "xor"))
		case 2:
			at := gInt(t, 0, 1, "at")
			b[at] = g8(t, "RL")
		case 3:
			b = append(b, gBytes(t, 1, 6, "tail", false)...)
		case 4:
			rec := MRec{RN: 1, SST: 2, RST: 2, Subs: []MSub{{T: byte(gInt(t, 60, 255, "SRT")), Raw: gBytes(t, 0, 5, "raw", false)}}}
			b = append(b, rec.Bytes()...)
		}
		if _, err := refDecodeRecs(b); err != nil && !isErr(err, errLoose) {
			return b
		}
	}
	return []byte{1}
}

// streamOf concatenates items and what the receiver owes for them.
func streamOf(items []SItem) (b []byte, o xOut, ends []int) {
	for i := range items {
		x := items[i].Bytes()
		w, err := owes(x)
		if err != nil {
			panic(harnessPanic{fmt.Errorf("item %d (%s): %v", i, items[i].Kind, err), ""})
		}
		b = append(b, x...)
		o.add(w)
		ends = append(ends, len(b))
	}
	return
}

func genItems(t *rapid.T, lo, hi int, kinds ...string) []SItem {
	var out []SItem
	for i, n := 0, gInt(t, lo, hi, "packets"); i < n; i++ {
		out = append(out, genItem(t, pick(t, kinds, "kind")))
	}
	return genRepeats(t, out)
}

// genRepeats makes some packets, records and subrecords occur again, byte for
// byte or with another number: terminals do repeat themselves.
func genRepeats(t *rapid.T, items []SItem) []SItem {
	if len(items) == 0 || !chance(t, 3, "repeats") {
		return items
	}
	for k := gInt(t, 1, 3, "how often"); k > 0; k-- {
		i := gInt(t, 0, len(items)-1, "item")
		it := &items[i]
		sound := len(it.Flip) == 0 && it.Fill == 0 && len(it.Pkg.App) > 0 && it.Pkg.RawBody == nil
		how := gInt(t, 0, 4, "what")
		if !sound {
			how = 0
		}
		switch how {
		case 0, 1: // the packet, at once or later
			c := *it
			c.Flip = append([]int(nil), it.Flip...)
			if sound {
				c.Pkg = clonePkg(it.Pkg)
				if how == 1 {
					c.Pkg.PID = g16(t, "PID")
				}
			}
			if it.Fill > 0 && len(items) > 4 {
				continue
			}
			at := gInt(t, i+1, len(items), "at")
			items = append(items[:at:at], append([]SItem{c}, items[at:]...)...)
		case 2: // a record
			app := clonePkg(it.Pkg).App
			j := gInt(t, 0, len(app)-1, "rec")
			x := cloneRec(app[j])
			if gBool(t, "renumber") {
				x.RN = g16(t, "RN")
			}
			at := gInt(t, j+1, len(app), "at")
			it.Pkg.App = append(app[:at:at], append([]MRec{x}, app[at:]...)...)
		case 3: // a subrecord
			app := clonePkg(it.Pkg).App
			j := gInt(t, 0, len(app)-1, "rec")
			if n := len(app[j].Subs); n > 0 {
				q := gInt(t, 0, n-1, "sub")
				for k := gInt(t, 1, 3, "times"); k > 0; k-- {
					app[j].Subs = append(app[j].Subs[:q+1:q+1], app[j].Subs[q:]...)
				}
			}
			it.Pkg.App = app
		case 4: // a subrecord in another record of the packet
			app := clonePkg(it.Pkg).App
			j, k := gInt(t, 0, len(app)-1, "from"), gInt(t, 0, len(app)-1, "to")
			if n := len(app[j].Subs); n > 0 {
				app[k].Subs = append(append([]MSub(nil), app[k].Subs...), app[j].Subs[gInt(t, 0, n-1, "sub")])
			}
			it.Pkg.App = app
		}
	}
	return items
}

func cloneRec(r MRec) MRec {
	r.Subs = append([]MSub(nil), r.Subs...)
	return r
}

func clonePkg(p MPkg) MPkg {
	app := make([]MRec, len(p.App))
	for i := range app {
		app[i] = cloneRec(p.App[i])
	}
	p.App = app
	return p
}

func labelItems(r *Rec, items []SItem) {
	for i := range items {
		r.Label(items[i].Kind)
	}
}

// runStream sends a stream on one connection of a fresh server and compares.
func runStream(r *Rec, items []SItem, cuts []int, pause time.Duration) *Failure {
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		stream, want, _ := streamOf(items)
		got, f := exchange(ts.addr, stream, cuts, pause)
		if f != nil {
			return f
		}
		if d := diffReplies(got, want.Replies); d != "" {
			return failf("replies: %s", d)
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flatten(want.Groups)); d != "" {
			return failf("storage: %s", d)
		}
		return nil
	})
}

// probe checks that a fresh connection is served.
func probe(addr string, store *recStore, pid uint16) *Failure {
	p := MPkg{PRV: 1, PID: pid, PT: 1, App: []MRec{{RN: pid, SST: 2, RST: 2, OID: ptr(uint32(0xFEEDF00D)),
		Subs: []MSub{{T: 16, Pos: &MPos{NTM: uint32(pid), LAT: 0x40000000, LONG: 0x30000000, FIX: 1, VLD: 1, SPD: 550}}}}}}
	got, f := exchange(addr, p.Bytes(), nil, 0)
	if f != nil {
		return f
	}
	w, _ := owes(p.Bytes())
	if d := diffReplies(got, w.Replies); d != "" {
		return failf("a well-behaved new connection is not served: %s", d)
	}
	if store != nil {
		saves, _ := store.snapshot()
		for _, s := range saves {
			if s.ClientID == 0xFEEDF00D && len(s.LocStates) == 1 && s.NavigationTimestamp == egtsEpoch.Unix()+int64(pid) {
				return nil
			}
		}
		return failf("the position of a well-behaved new connection was not stored")
	}
	return nil
}

func ptr[T any](v T) *T { return &v }

var _ = bytes.Equal
