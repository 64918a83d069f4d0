package main

// Checks S01-S12: the receiver server.

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

var goodKinds = []string{"data", "data", "data", "plain", "auth", "mixed", "confirm", "response"}
var badKinds = []string{"bodydamage", "headdamage", "garbage", "othertype"}

// StreamCase is a packet sequence on one connection.
type StreamCase struct {
	Items []SItem
	Cuts  []int  `json:",omitempty"`
	Pause int    `json:",omitempty"` // microseconds between segments
	Tail  []byte `json:",omitempty"`
}

func (c *StreamCase) pause() time.Duration { return time.Duration(c.Pause) * time.Microsecond }

// ---- S01 --------------------------------------------------------------------------

func genConfirmCase(t *rapid.T) StreamCase {
	kinds := goodKinds
	if chance(t, 12, "huge") {
		kinds = []string{"data", "huge", "plain"}
	}
	c := StreamCase{Items: genItems(t, 1, 6, kinds...)}
	if chance(t, 3, "cut") {
		b, _, _ := streamOf(c.Items)
		c.Cuts, c.Pause = genCuts(t, b, nil, 4), 200
	}
	return c
}

func confirmations(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	b, want, _ := streamOf(c.Items)
	acks := 0
	for _, w := range want.Replies {
		if w.Kind == "ack" {
			acks++
			r.LabelIf(len(w.CRN) > 1, "several records")
			r.LabelIf(len(w.CRN) == 0, "empty packet")
			r.LabelIf(len(w.CRN) > 5000, "thousands of records")
		}
	}
	r.Sub(len(c.Items))
	if acks >= 2 {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		got, f := exchange(ts.addr, b, c.Cuts, c.pause())
		if f != nil {
			return f
		}
		if d := diffReplies(got, want.Replies); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// a client that waits for each confirmation before it goes on
func lockstep(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	r.Sub(len(c.Items))
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		cl, err := dial(ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer cl.c.Close()
		var all xOut
		for i := range c.Items {
			b := c.Items[i].Bytes()
			o, err := owes(b)
			if err != nil {
				panic(err)
			}
			all.add(o)
			if len(o.Replies) > 0 && i > 0 {
				r.NonTrivial()
			}
			if err := cl.send(b); err != nil {
				return failf("packet %d (%s): %v", i, c.Items[i].Kind, err)
			}
			if !cl.waitPackets(len(all.Replies), ioLimit) {
				if cl.hasEnded() {
					return failf("packet %d (%s): the server closed the connection; %s", i, c.Items[i].Kind, diffReplies(cl.bytes(), all.Replies))
				}
				return softf("packet %d (%s): %s within %v", i, c.Items[i].Kind, diffReplies(cl.bytes(), all.Replies), ioLimit)
			}
			if d := diffReplies(cl.bytes(), all.Replies); d != "" {
				return failf("after packet %d (%s): %s", i, c.Items[i].Kind, d)
			}
		}
		_ = cl.c.CloseWrite()
		if !cl.waitEnd(ioLimit) {
			return softf("the connection is not finished after the client's end of data")
		}
		if d := diffReplies(cl.bytes(), all.Replies); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// LateCase: a client that keeps sending and begins to read its answers only
// when the server can neither send nor receive any more.
type LateCase struct {
	Items []SItem // sent in turn, between packets of many records
	Recs  int
	Wait  int // milliseconds from that moment to the first read
	Step  int // bytes per read
}

func genLate(t *rapid.T) LateCase {
	return LateCase{Items: genItems(t, 1, 5, "data", "plain", "auth", "mixed", "confirm", "response", "bodydamage"), Recs: gInt(t, 1000, 5500, "recs"),
		Wait: pick(t, []int{50, 600, 2500, 2500, 4000}, "wait"), Step: pick(t, []int{1 << 10, 32 << 10, 1 << 20}, "step")}
}

func lateReader(r *Rec, c *LateCase) *Failure {
	labelItems(r, c.Items)
	var b []byte
	var want xOut
	mids := make([]xOut, len(c.Items))
	for i := range c.Items {
		o, err := owes(c.Items[i].Bytes())
		if err != nil {
			panic(err)
		}
		mids[i] = o
	}
	n := 0
	for ; len(b) < 13<<20; n++ {
		p := MPkg{PRV: 1, PID: uint16(n), PT: 1}
		for i := 0; i < c.Recs; i++ {
			p.App = append(p.App, MRec{RN: uint16(n + i), SST: 2, RST: 2})
		}
		p.App[0].OID, p.App[0].Subs = ptr(uint32(n+1)), []MSub{{T: 16, Pos: &MPos{NTM: uint32(n)}}}
		x := p.Bytes()
		o, err := owes(x)
		if err != nil {
			panic(err)
		}
		want.add(o)
		want.add(mids[n%len(mids)])
		b = append(append(b, x...), c.Items[n%len(mids)].Bytes()...)
	}
	r.Sub(2 * n)
	logrus.SetLevel(logrus.ErrorLevel) // a line per record takes longer than the rest
	defer logrus.SetLevel(logrus.DebugLevel)
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		x, err := net.DialTimeout("tcp", ts.addr, ioLimit)
		if err != nil {
			return softf("dial: %v", err)
		}
		conn := x.(*net.TCPConn)
		defer func() { _ = conn.SetLinger(0); conn.Close() }()
		var sent atomic.Int64
		sending := make(chan error, 1)
		go func() {
			for at := 0; at < len(b); {
				k := min(64<<10, len(b)-at)
				m, err := conn.Write(b[at : at+k])
				at += m
				sent.Store(int64(at))
				if err != nil {
					sending <- err
					return
				}
			}
			sending <- conn.CloseWrite()
		}()
		for was, since := int64(-1), time.Now(); time.Since(since) < 150*time.Millisecond; time.Sleep(5 * time.Millisecond) {
			if x := sent.Load(); x != was {
				was, since = x, time.Now()
			}
		}
		if int(sent.Load()) < len(b) {
			r.NonTrivial()
			r.Label("every buffer full")
		}
		time.Sleep(time.Duration(c.Wait) * time.Millisecond)
		var got []byte
		buf := make([]byte, c.Step)
		for {
			_ = conn.SetReadDeadline(time.Now().Add(ioLimit))
			m, err := conn.Read(buf)
			got = append(got, buf[:m]...)
			if errors.Is(err, os.ErrDeadlineExceeded) {
				return softf("nothing arrives for %v: %s", ioLimit, diffReplies(got, want.Replies))
			}
			if err != nil {
				break
			}
		}
		if d := diffReplies(got, want.Replies); d != "" {
			return failf("%d bytes sent before the first answer was read: %s", sent.Load(), d)
		}
		if err := <-sending; err != nil {
			return failf("sending: %v", err)
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flatten(want.Groups)); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// LongCase: hundreds of small packets on one connection.
type LongCase struct {
	N, Recs, Batch int
	PID, RN        uint16
	Kinds          []SItem // woven in, cyclic
	Every, Run     int     `json:",omitempty"` // of that many packets, that many are woven in
}

func genLong(t *rapid.T) LongCase {
	c := LongCase{N: gInt(t, 100, 700, "n"), Recs: gInt(t, 0, 4, "recs"), Batch: gInt(t, 1, 300, "batch"), PID: g16(t, "PID"), RN: g16(t, "RN")}
	c.Kinds = genItems(t, 0, 3, "data", "auth", "confirm", "response", "bodydamage", "garbage")
	return c
}

// MarathonCase: more packets on one connection than any 16-bit counter can count.
type MarathonCase struct {
	N     int
	Every int // every that many packets carry a position
	PID   uint16
	Step  uint16
}

func genMarathon(t *rapid.T) MarathonCase {
	return MarathonCase{N: 66000 + gInt(t, 0, 3000, "more"), Every: gInt(t, 1, 5, "every"), PID: g16(t, "PID"), Step: pick(t, []uint16{1, 1, 0, 3}, "step")}
}

func marathon(r *Rec, c *MarathonCase) *Failure {
	logrus.SetLevel(logrus.ErrorLevel)
	defer logrus.SetLevel(logrus.DebugLevel)
	r.NonTrivial()
	r.Sub(c.N)
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		cl, err := dial(ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer cl.c.Close()
		var want xOut
		var b []byte
		at := 0
		for i := 0; i < c.N; i++ {
			p := MPkg{PRV: 1, PID: c.PID + uint16(i)*c.Step, PT: 1, App: []MRec{{RN: uint16(i), SST: 2, RST: 2, OID: ptr(uint32(i + 1))}}}
			if i%c.Every == 0 {
				p.App[0].Subs = []MSub{{T: 16, Pos: &MPos{NTM: uint32(i), LAT: uint32(i) << 12, LONG: uint32(i) << 10, SPD: uint16(i * 10 & 0x3FFF)}}}
			}
			x := p.Bytes()
			o, _ := owes(x)
			want.add(o)
			b = append(b, x...)
			if len(b) > 60000 || i == c.N-1 {
				// never more than some packets ahead of the server
				if err := cl.send(b); err != nil {
					return failf("connection broken after %d packets: %v", i, err)
				}
				b = b[:0]
				if !cl.wait(30*time.Second, func() bool { return cl.ended || len(cl.got)/16 >= at }) {
					return softf("the server does not answer packet %d", at)
				}
				at = len(want.Replies) - 3000
			}
		}
		_ = cl.c.CloseWrite()
		if !cl.waitEnd(30 * time.Second) {
			return softf("the connection is not finished")
		}
		if d := diffReplies(cl.bytes(), want.Replies); d != "" {
			return failf("%s", d)
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flatten(want.Groups)); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// genDamageRuns: intact packets, then up to hundreds of damaged ones, again and again.
func genDamageRuns(t *rapid.T) LongCase {
	c := LongCase{Recs: gInt(t, 0, 2, "recs"), Batch: gInt(t, 1, 300, "batch"), PID: g16(t, "PID"), RN: g16(t, "RN")}
	c.Kinds = genItems(t, 1, 4, badKinds...)
	c.Run = pick(t, []int{5, 12, 20, 40, 70, 110, 260, 300}, "run") + gInt(t, 0, 20, "more")
	c.Every = c.Run + gInt(t, 3, 12, "between")
	c.N = c.Every*gInt(t, 1, 3, "times") + 4
	return c
}

func longStream(r *Rec, c *LongCase) *Failure {
	var chunks [][]byte
	var want xOut
	rn := c.RN
	for i := 0; i < c.N; i++ {
		p := MPkg{PRV: 1, PID: c.PID + uint16(i), PT: 1}
		for k := 0; k < c.Recs; k++ {
			rec := MRec{RN: rn, SST: 2, RST: 2, OID: ptr(uint32(i + 1))}
			if k == 0 {
				rec.Subs = []MSub{{T: 16, Pos: &MPos{NTM: uint32(i), LAT: uint32(i) << 16, LONG: uint32(i) << 8, SPD: uint16(i * 10 & 0x3FFF)}}}
			}
			rn++
			p.App = append(p.App, rec)
		}
		b := p.Bytes()
		every, run := 7, 1
		if c.Every > 0 {
			every, run = c.Every, c.Run
		}
		if len(c.Kinds) > 0 && i%every >= 3 && i%every < 3+run {
			b = c.Kinds[(i/every+i%every-3)%len(c.Kinds)].Bytes()
		}
		o, err := owes(b)
		if err != nil {
			panic(err)
		}
		want.add(o)
		if i%c.Batch == 0 {
			chunks = append(chunks, nil)
		}
		chunks[len(chunks)-1] = append(chunks[len(chunks)-1], b...)
	}
	r.NonTrivial()
	r.Sub(c.N)
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		cl, err := dial(ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer cl.c.Close()
		for _, b := range chunks {
			if err := cl.send(b); err != nil {
				return failf("connection broken after %d bytes of replies: %v", len(cl.bytes()), err)
			}
		}
		_ = cl.c.CloseWrite()
		if !cl.waitEnd(ioLimit) {
			return softf("the connection is not finished")
		}
		if d := diffReplies(cl.bytes(), want.Replies); d != "" {
			return failf("%s", d)
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flatten(want.Groups)); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// ---- S02 --------------------------------------------------------------------------

// genBulk draws a packet with hundreds of positions and sensor readings.
func genBulk(t *rapid.T) SItem {
	it := SItem{Kind: "bulk", Pkg: genHeader(t, genOpt{PT: 1})}
	var pat []MSub
	for s, q := 0, gInt(t, 1, 4, "pattern"); s < q; s++ {
		pat = append(pat, genSub(t, pick(t, []byte{16, 16, 16, 24, 27, 18}, "SRT"), genOpt{}.norm()))
	}
	oids := []uint32{1, g32(t, "OID"), 0xFFFFFFFF, g32(t, "OID2")}
	n := pick(t, []int{64, 100, 200, 255, 256, 257, 300, 700, 1500}, "n") + gInt(t, 0, 3, "more")
	per := gInt(t, 1, 300, "per record")
	objects := gInt(t, 1, len(oids), "objects")
	every := gInt(t, 1, 4, "records per object")
	size, left := 0, n
	for i := 0; left > 0 && size < 62000; i++ {
		rec := MRec{RN: uint16(i), SST: 2, RST: 2}
		if i%every == 0 {
			rec.OID = ptr(oids[i/every%objects])
		}
		for k := 0; k < per && left > 0 && size < 62000; k++ {
			x := pat[k%len(pat)]
			if x.Pos != nil {
				y := *x.Pos
				y.NTM += uint32(left)
				y.LAT ^= uint32(left) << 12
				x.Pos = &y
			}
			rec.Subs = append(rec.Subs, x)
			size += len(x.Bytes())
			left--
		}
		size += len(rec.Bytes()) - len(rec.data())
		it.Pkg.App = append(it.Pkg.App, rec)
	}
	for len(it.Pkg.body()) > 65535 {
		it.Pkg.App = it.Pkg.App[:len(it.Pkg.App)-1]
	}
	return it
}

func storedBulk(r *Rec, c *StreamCase) *Failure {
	b, want, _ := streamOf(c.Items)
	flat := flatten(want.Groups)
	r.Sub(len(flat))
	r.LabelIf(len(want.Groups) > 20, "over 20 objects in turn")
	r.LabelIf(len(flat) > 255, "over 255 positions")
	if len(flat) > 60 {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		from := time.Now().Add(-2 * time.Second)
		got, f := exchange(ts.addr, b, nil, 0)
		if f != nil {
			return f
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flat); d != "" {
			return failf("%s", d)
		}
		if d := diffReplies(got, want.Replies); d != "" {
			return failf("%s", d)
		}
		if len(saves) == len(want.Groups) {
			for i := range saves {
				if d := diffSensors(&saves[i], &want.Groups[i], from, time.Now().Add(2*time.Second)); d != "" {
					return failf("stored record %d: %s", i, d)
				}
			}
		}
		return nil
	})
}

// storedAfterClose: the client closes without waiting for or reading anything.
func storedAfterClose(r *Rec, c *StreamCase) *Failure {
	b, want, _ := streamOf(c.Items)
	// What does not fit the receiver's window is lost with the connection.
	for len(b) > 24000 && len(c.Items) > 0 {
		c.Items = c.Items[:len(c.Items)-1]
		b, want, _ = streamOf(c.Items)
	}
	labelItems(r, c.Items)
	flat := flatten(want.Groups)
	r.Sub(len(flat))
	if len(flat) > 1 && len(c.Items) > 1 {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		x, err := net.DialTimeout("tcp", ts.addr, ioLimit)
		if err != nil {
			return softf("dial: %v", err)
		}
		_, err = x.Write(b)
		x.Close()
		if err != nil {
			r.Inconclusive("the kernel does not take the whole stream at once")
			return nil
		}
		var d string
		for end := time.Now().Add(ioLimit); ; time.Sleep(300 * time.Microsecond) {
			saves, other := ts.store.snapshot()
			if d = diffSaves(saves, other, flat); d == "" {
				break
			}
			if time.Now().After(end) {
				return softf("client closed after sending %d packets: %s", len(c.Items), d)
			}
		}
		return nil
	})
}

func genStoreCase(t *rapid.T) StreamCase {
	var c StreamCase
	for i, n := 0, gInt(t, 1, 5, "packets"); i < n; i++ {
		k := pick(t, []string{"data", "data", "objects", "objects", "mixed", "auth", "plain", "confirm", "response", "corpus"}, "kind")
		switch k {
		case "corpus":
			p, _, err := refDecode(corpus()[gInt(t, 0, len(corpus())-1, "row")])
			if err != nil {
				p = MPkg{PRV: 1, PT: 1}
			}
			c.Items = append(c.Items, SItem{Kind: k, Pkg: p})
		case "objects": // several objects, records without object id in between
			it := SItem{Kind: k, Pkg: genHeader(t, genOpt{PT: 1})}
			oids := []uint32{0, 1, g32(t, "OID"), 0xFFFFFFFF}
			for j, m := 0, gInt(t, 1, 6, "recs"); j < m; j++ {
				rec := genRecHead(t)
				rec.OID = nil
				if !chance(t, 3, "noOID") {
					rec.OID = ptr(pick(t, oids, "OID"))
				}
				for s, q := 0, gInt(t, 0, 3, "subs"); s < q; s++ {
					rec.Subs = append(rec.Subs, genSub(t, pick(t, []byte{16, 16, 24, 27}, "SRT"), genOpt{}.norm()))
				}
				it.Pkg.App = append(it.Pkg.App, rec)
			}
			c.Items = append(c.Items, it)
		default:
			c.Items = append(c.Items, genItem(t, k))
		}
	}
	c.Items = genRepeats(t, c.Items)
	return c
}

func storedOnce(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	b, want, _ := streamOf(c.Items)
	flat := flatten(want.Groups)
	r.Sub(len(flat))
	oids := map[uint32]bool{}
	for _, p := range flat {
		oids[p.oid] = true
		r.LabelIf(p.pos.LAHS == 1, "south")
		r.LabelIf(p.pos.LOHS == 1, "west")
	}
	r.LabelIf(len(oids) > 1, "several objects")
	r.LabelIf(len(flat) == 0, "no positions")
	if len(flat) > 1 {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		_, f := exchange(ts.addr, b, nil, 0)
		if f != nil {
			return f
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flat); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// BesideCase: a storage that works, next to one that refuses records.
type BesideCase struct {
	S     StreamCase
	Fail  []bool // per call of the refusing storage, cyclic
	First bool   // the refusing storage is asked first
	Err   int
}

func storedBeside(r *Rec, c *BesideCase) *Failure {
	labelItems(r, c.S.Items)
	b, want, _ := streamOf(c.S.Items)
	flat := flatten(want.Groups)
	r.Sub(len(flat))
	sick, well := &recStore{}, &recStore{}
	refused := atomic.Int32{}
	sick.hook = func(n int, _ *storage.NavRecord) error {
		if len(c.Fail) == 0 || c.Fail[n%len(c.Fail)] {
			refused.Add(1)
			return storeErr(c.Err + n)
		}
		return nil
	}
	stores := []storage.Saver{well, sick}
	if c.First {
		stores = []storage.Saver{sick, well}
	}
	ts, err := startServer(longTTL, stores...)
	if err != nil {
		return softf("server start: %v", err)
	}
	defer ts.stop()
	if _, f := exchange(ts.addr, b, nil, 0); f != nil {
		return f
	}
	if refused.Load() > 0 {
		r.NonTrivial()
	}
	saves, other := well.snapshot()
	if d := diffSaves(saves, other, flat); d != "" {
		return failf("in a storage next to one that refused %d records: %s", refused.Load(), d)
	}
	return nil
}

// ---- S03 --------------------------------------------------------------------------

// genCuts draws segment boundaries, many of them near packet and header ends.
func genCuts(t *rapid.T, b []byte, ends []int, max int) []int {
	n := gInt(t, 1, max, "cuts")
	var cuts []int
	for i := 0; i < n; i++ {
		at := gInt(t, 0, len(b), "cut")
		if len(ends) > 0 && gBool(t, "near") {
			e := 0
			if k := gInt(t, 0, len(ends), "end"); k > 0 {
				e = ends[k-1]
			}
			at = e + gInt(t, -3, 20, "off")
		}
		cuts = append(cuts, at)
	}
	sortInts(cuts)
	return cuts
}

func sortInts(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j-1] > x[j]; j-- {
			x[j-1], x[j] = x[j], x[j-1]
		}
	}
}

func genSegCase(t *rapid.T) StreamCase {
	kinds := append(append([]string{}, goodKinds...), badKinds...)
	c := StreamCase{}
	switch gInt(t, 0, 15, "shape") {
	case 0:
		c.Items = genItems(t, 1, 3, "huge", "data")
	case 1, 2: // every byte its own segment
		c.Items = genItems(t, 1, 2, kinds...)
		b, _, _ := streamOf(c.Items)
		if len(b) > 400 {
			c.Items = []SItem{genItem(t, "confirm")}
			b, _, _ = streamOf(c.Items)
		}
		for i := 1; i < len(b); i++ {
			c.Cuts = append(c.Cuts, i)
		}
		c.Pause = 20
		return c
	default:
		c.Items = genItems(t, 1, 5, kinds...)
	}
	b, _, ends := streamOf(c.Items)
	c.Cuts = genCuts(t, b, ends, 8)
	c.Pause = pick(t, []int{0, 150, 600}, "pause")
	if chance(t, 3, "tail") { // an unfinished packet at the end
		x := genItem(t, "data")
		y := x.Bytes()
		c.Tail = y[:gInt(t, 0, len(y)-1, "cut")]
	}
	return c
}

// SlowCase: packets whose pieces arrive seconds apart, on many connections at once.
type SlowLine struct {
	Items []SItem
	Cuts  []int
	Waits []int // milliseconds after each cut, cyclic
}
type SlowCase struct{ Lines []SlowLine }

func genSlow(most int) func(t *rapid.T) SlowCase {
	return func(t *rapid.T) SlowCase {
		var c SlowCase
		for i := gInt(t, 30, 60, "lines"); i > 0; i-- {
			l := SlowLine{Items: genItems(t, 1, 3, goodKinds...)}
			b, _, ends := streamOf(l.Items)
			l.Cuts = genCuts(t, b, ends, 3)
			// the time is spent in the pauses: few long ones or more short ones
			for left, k := most, len(l.Cuts); k > 0; k-- {
				w := gInt(t, 0, left, "ms")
				if k == 1 && gBool(t, "all") {
					w = left
				}
				l.Waits = append(l.Waits, w)
				left -= w
			}
			c.Lines = append(c.Lines, l)
		}
		return c
	}
}

func slowPieces(r *Rec, c *SlowCase) *Failure {
	r.Sub(len(c.Lines))
	r.NonTrivial()
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		fails := make([]*Failure, len(c.Lines))
		var wg sync.WaitGroup
		var flats []flatPos
		for i := range c.Lines {
			l := &c.Lines[i]
			for k := range l.Items { // stored records tell their line by the object
				for j := range l.Items[k].Pkg.App {
					l.Items[k].Pkg.App[j].OID = ptr(uint32(i + 1))
				}
			}
			b, want, _ := streamOf(l.Items)
			flats = append(flats, flatten(want.Groups)...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, err := dial(ts.addr)
				if err != nil {
					fails[i] = softf("dial: %v", err)
					return
				}
				defer cl.c.Close()
				at := 0
				for k, x := range append(append([]int{}, l.Cuts...), len(b)) {
					if x > at && x <= len(b) {
						if err := cl.send(b[at:x]); err != nil {
							fails[i] = failf("the connection is broken at byte %d of %d: %v", at, len(b), err)
							return
						}
						at = x
					}
					if k < len(l.Cuts) {
						time.Sleep(time.Duration(l.Waits[k%len(l.Waits)]) * time.Millisecond)
					}
				}
				_ = cl.c.CloseWrite()
				if !cl.waitEnd(ioLimit) {
					fails[i] = softf("the connection is not finished")
				} else if d := diffReplies(cl.bytes(), want.Replies); d != "" {
					fails[i] = failf("pieces up to byte %v of %d sent with pauses of %v ms: %s", l.Cuts, len(b), l.Waits, d)
				}
			}()
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		saves, other := ts.store.snapshot()
		sort.SliceStable(saves, func(i, j int) bool { return saves[i].ClientID < saves[j].ClientID })
		if d := diffSaves(saves, other, flats); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

func segmentation(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	b, want, ends := streamOf(c.Items)
	r.LabelIf(len(c.Tail) > 0, "unfinished last packet")
	r.LabelIf(len(b) > 60000, "over 60000 bytes")
	at, inside := map[int]bool{0: true, len(b): true}, 0
	for _, e := range ends {
		at[e] = true
	}
	for _, x := range c.Cuts {
		if x > 0 && x < len(b) && !at[x] {
			inside++
		}
	}
	r.LabelIf(inside > 20, "byte by byte")
	if inside > 0 && c.Pause > 0 {
		r.NonTrivial()
	}
	r.Sub(len(c.Cuts))
	run := func(cuts []int, pause time.Duration) (got []byte, saves []storage.NavRecord, other []string, f *Failure) {
		f = withServer(r, longTTL, func(ts *testServer) *Failure {
			var f *Failure
			got, f = exchange(ts.addr, append(append([]byte{}, b...), c.Tail...), cuts, pause)
			saves, other = ts.store.snapshot()
			return f
		})
		return
	}
	got1, saves1, other1, f := run(ends, 100*time.Microsecond)
	if f != nil {
		return f
	}
	pause := c.pause()
	if len(c.Cuts) > 3000 {
		pause = 0 // a pause takes a millisecond or more
	}
	got2, saves2, other2, f := run(c.Cuts, pause)
	if f != nil {
		return f
	}
	if !bytes.Equal(got1, got2) {
		return failf("replies differ: packet by packet %d bytes, segmented %d bytes; against the model: %q / %q", len(got1), len(got2),
			diffReplies(got1, want.Replies), diffReplies(got2, want.Replies))
	}
	for i := range saves1 {
		saves1[i].ReceivedDt = ""
	}
	for i := range saves2 {
		saves2[i].ReceivedDt = ""
	}
	if js(saves1) != js(saves2) || js(other1) != js(other2) {
		return failf("stored records differ: packet by packet %s, segmented %s", clipS(js(saves1)), clipS(js(saves2)))
	}
	// both must also be what the sequence asks for
	if d := diffReplies(got2, want.Replies); d != "" {
		return failf("segmented: %s", d)
	}
	if d := diffSaves(saves2, other2, flatten(want.Groups)); d != "" {
		return failf("segmented: %s", d)
	}
	return nil
}

func clipS(s string) string {
	if len(s) > 700 {
		return s[:700] + "…"
	}
	return s
}

// ---- S04 --------------------------------------------------------------------------

func genDamageStream(t *rapid.T) StreamCase {
	c := StreamCase{}
	for i, n := 0, gInt(t, 1, 6, "packets"); i < n; i++ {
		if gBool(t, "bad") {
			c.Items = append(c.Items, genItem(t, pick(t, badKinds, "kind")))
		} else {
			c.Items = append(c.Items, genItem(t, pick(t, []string{"data", "data", "auth", "plain"}, "kind")))
		}
	}
	return c
}

func damagedStream(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	_, want, _ := streamOf(c.Items)
	bad, good := 0, 0
	for _, w := range want.Replies {
		if w.Kind == "nack" {
			bad++
		} else {
			good++
		}
	}
	r.Sub(bad)
	if bad > 0 && good > 0 {
		r.NonTrivial()
	}
	return runStream(r, c.Items, nil, 0)
}

// ---- S05 --------------------------------------------------------------------------

type ConnScript struct {
	Style string // good, garbage, abort, silent
	Items []SItem
	Cuts  []int
	Pause int
	Raw   []byte `json:",omitempty"`
}
type ManyCase struct {
	Conns []ConnScript
	Slow  []int // microseconds the storage takes, cyclic
}

func genMany(t *rapid.T) ManyCase {
	c := ManyCase{}
	n := gInt(t, 2, 10, "conns")
	for i := 0; i < n; i++ {
		s := ConnScript{Style: pick(t, []string{"good", "good", "good", "garbage", "abort", "silent"}, "style")}
		s.Items = genItems(t, 1, 6, "data", "data", "data", "auth", "plain", "mixed", "bodydamage")
		for j := range s.Items {
			app := s.Items[j].Pkg.App
			for k := range app {
				app[k].OID = ptr(uint32(i+1)<<24 | g32(t, "OID")&0xFFFF)
			}
		}
		b, _, ends := streamOf(s.Items)
		s.Cuts = append(genCuts(t, b, ends, 5), ends...)
		sortInts(s.Cuts)
		s.Pause = pick(t, []int{0, 50, 300}, "pause")
		if s.Style == "garbage" {
			s.Raw = gBytes(t, 1, 40, "raw", false)
		}
		c.Conns = append(c.Conns, s)
	}
	for i := gInt(t, 1, 4, "slow"); i > 0; i-- {
		c.Slow = append(c.Slow, pick(t, []int{0, 0, 50, 500, 2000}, "us"))
	}
	return c
}

func manyConns(r *Rec, c *ManyCase) *Failure {
	good := 0
	for _, s := range c.Conns {
		r.Label(s.Style)
		if s.Style == "good" {
			good++
		}
	}
	r.Sub(len(c.Conns))
	if good >= 2 {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		ts.store.hook = func(n int, _ *storage.NavRecord) error {
			if len(c.Slow) > 0 {
				if us := c.Slow[n%len(c.Slow)]; us > 0 {
					time.Sleep(time.Duration(us) * time.Microsecond)
				}
			}
			return nil
		}
		fails := make([]*Failure, len(c.Conns))
		wants := make([]xOut, len(c.Conns))
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range c.Conns {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				s := &c.Conns[i]
				b, want, _ := streamOf(s.Items)
				wants[i] = want
				cl, err := dial(ts.addr)
				if err != nil {
					fails[i] = softf("connection %d: %v", i, err)
					return
				}
				defer cl.c.Close()
				<-gate
				pause := time.Duration(s.Pause) * time.Microsecond
				switch s.Style {
				case "good":
					_ = cl.sendCut(b, s.Cuts, pause)
					_ = cl.c.CloseWrite()
					if !cl.waitEnd(ioLimit) {
						fails[i] = softf("connection %d is not finished", i)
					} else if d := diffReplies(cl.bytes(), want.Replies); d != "" {
						fails[i] = failf("connection %d: %s", i, d)
					}
				case "garbage":
					_ = cl.sendCut(append(append([]byte{}, s.Raw...), b...), s.Cuts, pause)
					_ = cl.c.CloseWrite()
					cl.waitEnd(ioLimit)
				case "abort":
					n := len(b)
					if len(s.Cuts) > 0 && s.Cuts[len(s.Cuts)/2] < n && s.Cuts[len(s.Cuts)/2] > 0 {
						n = s.Cuts[len(s.Cuts)/2]
					}
					_ = cl.sendCut(b[:n], s.Cuts, pause)
					cl.abort()
				case "silent":
					// holds its connection until the others are done
					time.Sleep(2 * time.Millisecond)
				}
			}(i)
		}
		close(gate)
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		saves, other := ts.store.snapshot()
		if len(other) > 0 {
			return failf("something else than a record was stored: %v", other)
		}
		per := make([][]storage.NavRecord, len(c.Conns)+1)
		for _, s := range saves {
			k := int(s.ClientID >> 24)
			if k < 1 || k > len(c.Conns) {
				return failf("a record was stored for object %d, which no client sent", s.ClientID)
			}
			per[k] = append(per[k], s)
		}
		for i := range c.Conns {
			flat := flatten(wants[i].Groups)
			switch c.Conns[i].Style {
			case "good":
				if d := diffSaves(per[i+1], nil, flat); d != "" {
					return failf("connection %d: %s", i, d)
				}
			case "silent":
				if len(per[i+1]) > 0 {
					return failf("connection %d sent nothing, but %d records were stored for its objects", i, len(per[i+1]))
				}
			case "abort": // what it sent before may or may not have arrived
				n := 0
				for _, s := range per[i+1] {
					n += len(s.LocStates)
				}
				if n > len(flat) {
					return failf("connection %d sent %d positions at most, %d were stored", i, len(flat), n)
				}
				if d := diffSaves(per[i+1], nil, flat[:n]); d != "" {
					return failf("aborted connection %d: %s", i, d)
				}
			}
		}
		return nil
	})
}

// StormCase: identical bursts on many connections at once.
type StormCase struct {
	Conns, Packets int
	Seed           uint32
	Same           bool `json:",omitempty"` // every client claims the same identity, packet and record numbers
}

func genStorm(t *rapid.T) StormCase {
	return StormCase{gInt(t, 4, 24, "conns"), gInt(t, 5, 30, "packets"), g32(t, "seed"), chance(t, 3, "same")}
}

func storm(r *Rec, c *StormCase) *Failure {
	r.NonTrivial()
	r.Sub(c.Conns * c.Packets)
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		fails := make([]*Failure, c.Conns)
		flats := make([][]flatPos, c.Conns)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < c.Conns; i++ {
			rnd := newRnd(uint64(c.Seed)*1000 + uint64(i))
			var b []byte
			var want xOut
			for k := 0; k < c.Packets; k++ {
				p := MPkg{PRV: 1, PID: uint16(rnd.Uint32()), PT: 1}
				if c.Same {
					p.PID = uint16(k)
				}
				for m := 1 + rnd.Intn(3); m > 0; m-- {
					rec := MRec{RN: uint16(rnd.Uint32()), SST: 2, RST: 2, OID: ptr(uint32(i + 1))}
					if c.Same {
						rec.RN, rec.OID = uint16(k), ptr(uint32(7))
						if k == 0 {
							rec.Subs = append(rec.Subs, MSub{T: 1, Term: &MTerm{TID: 7, IMEI: []byte("123456789012345")}})
						}
					}
					for q := rnd.Intn(3); q >= 0; q-- {
						rec.Subs = append(rec.Subs, MSub{T: 16, Pos: &MPos{NTM: uint32(i+1)<<24 | rnd.Uint32()>>8, LAT: rnd.Uint32(), LONG: rnd.Uint32(),
							LAHS: byte(rnd.Intn(2)), LOHS: byte(rnd.Intn(2)), SPD: uint16(rnd.Intn(0x4000))}})
					}
					p.App = append(p.App, rec)
				}
				x := p.Bytes()
				o, _ := owes(x)
				want.add(o)
				b = append(b, x...)
			}
			flats[i] = flatten(want.Groups)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				got, f := exchange(ts.addr, b, nil, 0)
				if f != nil {
					fails[i] = f
				} else if d := diffReplies(got, want.Replies); d != "" {
					fails[i] = failf("connection %d of %d: %s", i, c.Conns, d)
				}
			}(i)
		}
		close(gate)
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		saves, other := ts.store.snapshot()
		per := map[uint32][]storage.NavRecord{}
		for _, s := range saves {
			k := s.ClientID
			if c.Same {
				if k != 7 {
					return failf("a record was stored for object %d, which no client sent", k)
				}
				k = uint32(s.NavigationTimestamp-egtsEpoch.Unix()) >> 24
			}
			per[k] = append(per[k], s)
		}
		for i := 0; i < c.Conns; i++ {
			if d := diffSaves(per[uint32(i+1)], other, flats[i]); d != "" {
				return failf("connection %d of %d: %s", i, c.Conns, d)
			}
			delete(per, uint32(i+1))
		}
		if len(per) > 0 {
			return failf("records were stored for objects nobody sent")
		}
		return nil
	})
}

// HeldCase: the storage does not come back with the records of some connections;
// meanwhile the others, new ones included, are served.
type HeldCase struct {
	Held, Others, Rounds int
	Fail                 []bool // whether the held records are refused in the end
	Auth                 bool
	Seed                 uint32
}

func genHeld(t *rapid.T) HeldCase {
	c := HeldCase{Held: gInt(t, 1, 40, "held"), Others: gInt(t, 1, 10, "others"), Rounds: gInt(t, 1, 4, "rounds"), Auth: chance(t, 3, "auth"), Seed: g32(t, "seed")}
	for i := 0; i < c.Held; i++ {
		c.Fail = append(c.Fail, chance(t, 4, "refused"))
	}
	return c
}

func heldUp(r *Rec, c *HeldCase) *Failure {
	r.NonTrivial()
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		rnd := newRnd(uint64(c.Seed))
		release := make(chan struct{})
		var entered atomic.Int32
		ts.store.hook = func(_ int, rec *storage.NavRecord) error {
			i := int(rec.ClientID) - 1
			if i < 0 || i >= c.Held {
				return nil
			}
			entered.Add(1)
			<-release
			if c.Fail[i] {
				return errStore
			}
			return nil
		}
		released := false
		defer func() {
			if !released {
				close(release)
			}
		}()
		var cls []*client
		defer func() {
			for _, cl := range cls {
				cl.c.Close()
			}
		}()
		packet := func(i int) (xOut, []byte) {
			p := MPkg{PRV: 1, PID: uint16(rnd.Uint32()), PT: 1, App: []MRec{{RN: uint16(rnd.Uint32()), SST: 2, RST: 2, OID: ptr(uint32(i + 1)),
				Subs: []MSub{{T: 16, Pos: &MPos{NTM: rnd.Uint32(), LAT: rnd.Uint32(), LONG: rnd.Uint32(), SPD: uint16(rnd.Intn(0x4000))}}}}}}
			if c.Auth {
				p.App[0].Subs = append(p.App[0].Subs, MSub{T: 1, Term: &MTerm{TID: uint32(i)}})
			}
			b := p.Bytes()
			o, err := owes(b)
			if err != nil {
				panic(err)
			}
			return o, b
		}
		wants := map[int]*xOut{}
		send := func(i int) *Failure {
			if i >= len(cls) {
				cl, err := dial(ts.addr)
				if err != nil {
					return softf("connection %d while %d records are being stored: %v", i, entered.Load(), err)
				}
				cls = append(cls, cl)
				wants[i] = &xOut{}
			}
			o, b := packet(i)
			wants[i].add(o)
			if err := cls[i].send(b); err != nil {
				return failf("connection %d: %v", i, err)
			}
			return nil
		}
		listen := func(i int, when string) *Failure {
			if !cls[i].waitPackets(len(wants[i].Replies), ioLimit) {
				if cls[i].hasEnded() {
					return failf("connection %d was closed %s", i, when)
				}
				return softf("connection %d is not served %s", i, when)
			}
			if d := diffReplies(cls[i].bytes(), wants[i].Replies); d != "" {
				return failf("connection %d %s: %s", i, when, d)
			}
			return nil
		}
		for i := 0; i < c.Held; i++ {
			if f := send(i); f != nil {
				return f
			}
		}
		for end := time.Now().Add(ioLimit); int(entered.Load()) < c.Held; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				return softf("%d of %d records reach the storage while others are being stored", entered.Load(), c.Held)
			}
		}
		when := fmt.Sprintf("while the records of %d other connections are being stored", c.Held)
		for k := 0; k < c.Rounds; k++ {
			for i := 0; i < c.Others; i++ {
				if f := send(c.Held + i); f != nil {
					return f
				}
			}
			for i := 0; i < c.Others; i++ {
				if f := listen(c.Held+i, when); f != nil {
					return f
				}
				r.Sub(1)
			}
		}
		for i := 0; i < c.Held; i++ {
			if n := len(cls[i].bytes()); n > 0 {
				return failf("connection %d got %d bytes before its record was stored", i, n)
			}
		}
		close(release)
		released = true
		for i := 0; i < c.Held; i++ {
			if c.Fail[i] {
				wants[i].Replies[0].Kind = "nack"
			}
			if f := listen(i, "after its record was stored"); f != nil {
				return f
			}
		}
		return nil
	})
}

// HundredsCase: very many terminals are connected at the same time.
type HundredsCase struct {
	Conns, Leave, More int
	Talk               int // every Talk-th speaks as soon as it is connected
	IPs                bool
	Seed               uint32
}

func genHundreds(t *rapid.T) HundredsCase {
	c := HundredsCase{Conns: pick(t, []int{80, 140, 270, 530, 690, 1100, 2100}, "conns") + gInt(t, 0, 10, "more"), Talk: gInt(t, 1, 4, "talk"), IPs: gBool(t, "ips"), Seed: g32(t, "seed")}
	c.Leave = gInt(t, 0, c.Conns/2, "leave")
	c.More = gInt(t, 1, 40, "new")
	return c
}

func hundreds(r *Rec, c *HundredsCase) *Failure {
	r.NonTrivial()
	r.Sub(c.Conns + c.More)
	r.LabelIf(c.IPs, "from many addresses")
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil || lim.Cur < uint64(2*(c.Conns+c.More)+200) {
		r.Inconclusive("too few file descriptors")
		return nil
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		rnd := newRnd(uint64(c.Seed))
		type term struct {
			cl   *client
			want xOut
			n    int
		}
		var ts1 []*term
		defer func() {
			for _, x := range ts1 {
				x.cl.c.Close()
			}
		}()
		connect := func(i int) *Failure {
			d := net.Dialer{Timeout: ioLimit}
			if c.IPs {
				d.LocalAddr = &net.TCPAddr{IP: net.IPv4(127, byte(200+i%50), byte(i/50), 9)}
			}
			x, err := d.Dial("tcp", ts.addr)
			if err != nil {
				return softf("connection %d, %d open: %v", i, len(ts1), err)
			}
			cl := &client{c: x.(*net.TCPConn)}
			cl.cond = sync.NewCond(&cl.mu)
			go cl.reader()
			ts1 = append(ts1, &term{cl: cl})
			return nil
		}
		speak := func(i int) error {
			x := ts1[i]
			p := MPkg{PRV: 1, PID: uint16(rnd.Uint32()), PT: 1, App: []MRec{{RN: uint16(rnd.Uint32()), SST: 2, RST: 2, OID: ptr(uint32(i + 1)),
				Subs: []MSub{{T: 16, Pos: &MPos{NTM: rnd.Uint32(), LAT: rnd.Uint32(), LONG: rnd.Uint32(), SPD: uint16(rnd.Intn(0x4000))}}}}}}
			b := p.Bytes()
			o, _ := owes(b)
			x.want.add(o)
			x.n++
			return x.cl.send(b)
		}
		listen := func(i int) *Failure {
			x := ts1[i]
			if !x.cl.waitPackets(len(x.want.Replies), ioLimit) && !x.cl.hasEnded() {
				return softf("connection %d of %d: packet %d is not answered within %v", i, len(ts1), x.n, ioLimit)
			}
			if d := diffReplies(x.cl.bytes(), x.want.Replies); d != "" {
				return failf("connection %d of %d: %s", i, len(ts1), d)
			}
			return nil
		}
		gone := map[int]bool{}
		round := func(every int) *Failure {
			var say []int
			for i := range ts1 {
				if !gone[i] && i%every == 0 {
					if err := speak(i); err != nil {
						return failf("connection %d of %d is broken: %v", i, len(ts1), err)
					}
					say = append(say, i)
				}
			}
			for _, i := range say {
				if f := listen(i); f != nil {
					return f
				}
			}
			return nil
		}
		for i := 0; i < c.Conns; i++ {
			if f := connect(i); f != nil {
				return f
			}
			if i%c.Talk == 0 {
				if err := speak(i); err != nil {
					return failf("connection %d is broken: %v", i, err)
				}
			}
		}
		for i := range ts1 {
			if f := listen(i); f != nil {
				return f
			}
		}
		if f := round(1); f != nil {
			return f
		}
		for k := 0; k < c.Leave; k++ {
			i := rnd.Intn(c.Conns)
			if !gone[i] {
				gone[i] = true
				if k%2 == 0 {
					ts1[i].cl.abort()
				} else {
					ts1[i].cl.c.Close()
				}
			}
		}
		for i := 0; i < c.More; i++ {
			if f := connect(c.Conns + i); f != nil {
				return f
			}
		}
		if f := round(1); f != nil {
			return f
		}
		saves, other := ts.store.snapshot()
		per := map[uint32][]storage.NavRecord{}
		for _, s := range saves {
			per[s.ClientID] = append(per[s.ClientID], s)
		}
		for i, x := range ts1 {
			if d := diffSaves(per[uint32(i+1)], other, flatten(x.want.Groups)); d != "" {
				return failf("connection %d of %d: %s", i, len(ts1), d)
			}
			delete(per, uint32(i+1))
		}
		if len(per) > 0 {
			return failf("records were stored for objects nobody sent")
		}
		return nil
	})
}

// ---- S06 --------------------------------------------------------------------------

type Attack struct {
	Bytes []byte
	Cuts  []int  `json:",omitempty"`
	End   string // fin, close, reset, stay
}
type AttackCase struct{ Attacks []Attack }

func genAttack(t *rapid.T) AttackCase {
	c := AttackCase{}
	for i, n := 0, gInt(t, 1, 5, "attacks"); i < n; i++ {
		a := Attack{End: pick(t, []string{"fin", "fin", "close", "reset", "stay"}, "end")}
		switch gInt(t, 0, 5, "what") {
		case 0:
			a.Bytes = gBytes(t, 0, 64, "random", false)
			if len(a.Bytes) > 0 && gBool(t, "prv") {
				a.Bytes[0] = 1
			}
		case 1, 2, 3:
			for j, m := 0, gInt(t, 1, 3, "packets"); j < m; j++ {
				a.Bytes = append(a.Bytes, genMutated(t).B...)
			}
		case 4:
			a.Bytes, _, _ = streamOf(genItems(t, 1, 3, append(append([]string{}, goodKinds...), badKinds...)...))
			if chance(t, 2, "truncate") {
				a.Bytes = a.Bytes[:gInt(t, 0, len(a.Bytes), "cut")]
			}
		case 5: // a header claiming anything
			h := MPkg{PRV: 1, PID: 1, PT: byte(gInt(t, 0, 2, "PT")), RTE: gBool(t, "RTE")}
			a.Bytes = h.Bytes()
			a.Bytes[3] = g8(t, "HL")
			a.Bytes[5], a.Bytes[6] = g8(t, "FDL"), g8(t, "FDL")
			a.Bytes = append(a.Bytes, gBytes(t, 0, 600, "more", false)...)
		}
		if gBool(t, "seg") {
			a.Cuts = genCuts(t, a.Bytes, nil, 4)
		}
		c.Attacks = append(c.Attacks, a)
	}
	return c
}

func survives(r *Rec, c *AttackCase) *Failure {
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		old, err := dial(ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer old.c.Close()
		sent := 0
		serveOld := func() *Failure {
			p := MPkg{PRV: 1, PID: uint16(sent), PT: 1, App: []MRec{{RN: uint16(sent), SST: 2, RST: 2, OID: ptr(uint32(7)), Subs: []MSub{{T: 16, Pos: &MPos{NTM: 5}}}}}}
			if err := old.send(p.Bytes()); err != nil {
				return failf("an existing connection is broken: %v", err)
			}
			sent++
			if !old.waitPackets(sent, ioLimit) {
				if old.hasEnded() {
					return failf("an existing connection was closed")
				}
				return softf("an existing connection is no longer served")
			}
			w := make([]xReply, sent)
			for i := range w {
				w[i] = xReply{Kind: "ack", RPID: uint16(i), CRN: []uint16{uint16(i)}}
			}
			if d := diffReplies(old.bytes(), w); d != "" {
				return failf("an existing connection: %s", d)
			}
			return nil
		}
		if f := serveOld(); f != nil {
			return f
		}
		for i, a := range c.Attacks {
			cl, err := dial(ts.addr)
			if err != nil {
				return softf("after attack %d a new connection is not accepted: %v", i, err)
			}
			_ = cl.sendCut(a.Bytes, a.Cuts, 100*time.Microsecond)
			r.Label(a.End)
			if len(a.Bytes) > 10 {
				r.NonTrivial()
			}
			r.Sub(1)
			switch a.End {
			case "fin":
				_ = cl.c.CloseWrite()
				if !cl.waitEnd(ioLimit) {
					cl.c.Close()
					return softf("attack %d: the server does not finish the connection after the client's end of data", i)
				}
				cl.c.Close()
			case "close":
				cl.c.Close()
			case "reset":
				cl.abort()
			case "stay":
				defer cl.c.Close()
			}
			if f := serveOld(); f != nil {
				f.Msg = fmt.Sprintf("after attack %d: %s", i, f.Msg)
				return f
			}
		}
		// the process must survive everything that is still going on, too
		time.Sleep(500 * time.Microsecond)
		if f := probe(ts.addr, ts.store, 4242); f != nil {
			return f
		}
		return serveOld()
	})
}

// ExhaustCase: more connections than descriptors, one after the other.
type ExhaustCase struct {
	Conns int
	Kinds []Attack
}

func genExhaust(t *rapid.T) ExhaustCase {
	c := ExhaustCase{Conns: gInt(t, 150, 220, "conns")}
	for i, n := 0, gInt(t, 1, 3, "kinds"); i < n; i++ {
		a := genAttack(t).Attacks[0]
		if a.End == "stay" {
			a.End = "fin"
		}
		if len(a.Bytes) > 20000 {
			a.Bytes = a.Bytes[:20000]
		}
		c.Kinds = append(c.Kinds, a)
	}
	return c
}

func exhaustion(r *Rec, c *ExhaustCase) *Failure {
	r.NonTrivial()
	r.Sub(c.Conns)
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			r.Inconclusive("rlimit")
			return nil
		}
		lim := old
		lim.Cur = 128
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			r.Inconclusive("rlimit")
			return nil
		}
		defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
		for i := 0; i < c.Conns; i++ {
			a := c.Kinds[i%len(c.Kinds)]
			var cl *client
			var err error
			for k := 0; k < 200; k++ { // closed connections are given back with a delay
				if cl, err = dial(ts.addr); err == nil || !errors.Is(err, syscall.EMFILE) {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			if err != nil {
				return softf("connection %d: %v", i, err)
			}
			_ = cl.send(a.Bytes)
			switch a.End {
			case "reset":
				cl.abort()
			case "close":
				cl.c.Close()
			default:
				_ = cl.c.CloseWrite()
				ok := cl.waitEnd(ioLimit)
				cl.c.Close()
				if !ok {
					return softf("connection %d is not finished", i)
				}
			}
		}
		for k := 0; ; k++ {
			f := probe(ts.addr, ts.store, 999)
			if f == nil || k == 5 {
				if f != nil {
					f.Msg = fmt.Sprintf("after %d ended connections: %s", c.Conns, f.Msg)
				}
				return f
			}
			time.Sleep(20 * time.Millisecond)
		}
	})
}

// ---- S07 --------------------------------------------------------------------------

type SaveCase struct {
	Items []SItem
	Fail  []bool // per call of the storage, cyclic
	Gate  bool
	Two   int // 0: one storage; 1: a second, always working one before it; 2: after it
	Err   int // which error value the first failing call of each packet returns
}

func genSave(t *rapid.T) SaveCase {
	c := SaveCase{Items: genItems(t, 1, 5, "data", "data", "mixed", "auth", "plain"), Gate: gBool(t, "gate"), Two: gInt(t, 0, 2, "two"), Err: gInt(t, 0, len(storeErrs)-1, "error")}
	for i, n := 0, gInt(t, 1, 4, "fail"); i < n; i++ {
		c.Fail = append(c.Fail, gBool(t, "fails"))
	}
	if c.Gate && len(c.Items) > 3 {
		c.Items = c.Items[:3]
	}
	return c
}

var errStore = errors.New("storage refuses")

type emptyErr struct{}

func (emptyErr) Error() string   { return "" }
func (emptyErr) Timeout() bool   { return true }
func (emptyErr) Temporary() bool { return true }

// storeErrs are the ways a storage says no: any error value counts, whatever its type or text.
var storeErrs = []error{errStore, errors.New(""), io.EOF, io.ErrUnexpectedEOF, context.DeadlineExceeded, context.Canceled, net.ErrClosed,
	os.ErrDeadlineExceeded, os.ErrExist, os.ErrNotExist, sql.ErrNoRows, sql.ErrConnDone, driver.ErrBadConn, emptyErr{},
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, syscall.EAGAIN, syscall.ECONNRESET, fmt.Errorf("wrapped: %w", io.EOF),
	errors.Join(errStore, io.EOF), errors.New("duplicate key value violates unique constraint (0x3)"),
	errors.New("i/o timeout"), errors.New("use of closed network connection"), errors.New("OK"), errors.New("nil")}

func storeErr(i int) error { return storeErrs[((i%len(storeErrs))+len(storeErrs))%len(storeErrs)] }

// saveGuard: a confirmation never overtakes or contradicts the storage.
func saveGuard(r *Rec, c *SaveCase) *Failure {
	var failing atomic.Bool // the packet in flight may fail
	var nfail, calls atomic.Int32
	enter := make(chan struct{}, 1000)
	release := make(chan struct{}, 1000)
	st := &recStore{}
	st.hook = func(n int, _ *storage.NavRecord) error {
		if c.Gate {
			enter <- struct{}{}
			<-release
		}
		calls.Add(1)
		if failing.Load() && c.Fail[n%len(c.Fail)] {
			return storeErr(c.Err + int(nfail.Add(1)) - 1)
		}
		return nil
	}
	other := &recStore{}
	stores := []storage.Saver{st}
	if c.Two == 1 {
		stores = []storage.Saver{other, st}
	} else if c.Two == 2 {
		stores = []storage.Saver{st, other}
	}
	failing.Store(true)
	ts, err := startServer(longTTL, stores...)
	if err != nil {
		return softf("server start: %v", err)
	}
	defer ts.stop()
	defer close(release)
	cl, err := dial(ts.addr)
	if err != nil {
		return softf("dial: %v", err)
	}
	defer cl.c.Close()
	var want []xReply
	for i := range c.Items {
		b := c.Items[i].Bytes()
		o, err := owes(b)
		if err != nil {
			panic(err)
		}
		nfail.Store(0)
		calls.Store(0)
		if err := cl.send(b); err != nil {
			return failf("packet %d: %v", i, err)
		}
		r.Sub(1)
		if c.Gate {
			for k := range o.Groups {
				select {
				case <-enter:
				case <-time.After(ioLimit):
					return softf("packet %d: record %d of %d does not reach the storage", i, k, len(o.Groups))
				}
				time.Sleep(3 * time.Millisecond)
				if n := len(cl.bytes()); countFrames(cl.bytes()) > len(want) {
					return failf("packet %d was answered (%d bytes) while the storage had not yet accepted its record %d of %d", i, n, k, len(o.Groups))
				}
				release <- struct{}{}
				r.NonTrivial()
				r.Label("gated")
			}
		}
		if !cl.waitPackets(len(want)+len(o.Replies), ioLimit) {
			if cl.hasEnded() {
				return failf("packet %d: the server closed the connection", i)
			}
			return softf("packet %d is not answered", i)
		}
		if nfail.Load() > 0 {
			r.NonTrivial()
			r.Label("storage failed")
			o.Replies[0].Kind = "nack"
			if len(o.Groups) > 1 {
				r.Label("one of several objects failed")
			}
		}
		if int(calls.Load()) != len(o.Groups) && len(o.Groups) > 0 {
			r.Label("grouped differently")
		}
		single := len(o.Groups) <= 1
		for _, x := range o.Replies {
			want = append(want, x)
		}
		got := cl.bytes()
		if d := diffRepliesOpt(got, want, !single); d != "" {
			return failf("packet %d (%d storage failures): %s", i, nfail.Load(), d)
		}
	}
	_ = cl.c.CloseWrite()
	if !cl.waitEnd(ioLimit) {
		return softf("the connection is not finished")
	}
	if n := countFrames(cl.bytes()); n != len(want) {
		return failf("%d replies, %d expected", n, len(want))
	}
	return nil
}

// HoldCase: a storage that takes its time, on many connections at once.
type HoldLine struct {
	Hold []int // milliseconds per packet
	Fail []bool
	Auth bool
}
type HoldCase struct{ Lines []HoldLine }

func genHold(most int) func(t *rapid.T) HoldCase {
	return func(t *rapid.T) HoldCase {
		var c HoldCase
		for i := gInt(t, 20, 50, "lines"); i > 0; i-- {
			l := HoldLine{Auth: chance(t, 3, "auth")}
			for left := most; left > 0 && len(l.Hold) < 4; {
				w := gInt(t, 0, left, "ms")
				if gBool(t, "all") {
					w = left
				}
				l.Hold = append(l.Hold, w)
				l.Fail = append(l.Fail, chance(t, 3, "fail"))
				left -= w + most/20
			}
			c.Lines = append(c.Lines, l)
		}
		return c
	}
}

func slowStorage(r *Rec, c *HoldCase) *Failure {
	r.NonTrivial()
	r.Sub(len(c.Lines))
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		var mu sync.Mutex
		done := map[uint32]int{}
		total := time.Duration(0)
		for _, l := range c.Lines {
			for _, ms := range l.Hold {
				total += time.Duration(ms) * time.Millisecond
			}
		}
		ts.store.hook = func(_ int, rec *storage.NavRecord) error {
			i, k := int(rec.ClientID>>8)-1, int(rec.ClientID&0xFF)
			if i < 0 || i >= len(c.Lines) || k >= len(c.Lines[i].Hold) {
				return nil
			}
			time.Sleep(time.Duration(c.Lines[i].Hold[k]) * time.Millisecond)
			mu.Lock()
			done[rec.ClientID]++
			mu.Unlock()
			if c.Lines[i].Fail[k] {
				return storeErr(i + k)
			}
			return nil
		}
		fails := make([]*Failure, len(c.Lines))
		var wg sync.WaitGroup
		for i := range c.Lines {
			l := &c.Lines[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, err := dial(ts.addr)
				if err != nil {
					fails[i] = softf("dial: %v", err)
					return
				}
				defer cl.c.Close()
				var want []xReply
				for k := range l.Hold {
					oid := uint32(i+1)<<8 | uint32(k)
					p := MPkg{PRV: 1, PID: uint16(k), PT: 1, App: []MRec{{RN: uint16(k), SST: 2, RST: 2, OID: &oid, Subs: []MSub{{T: 16, Pos: &MPos{NTM: uint32(k), LAT: uint32(i) << 16}}}}}}
					if l.Auth {
						p.App[0].Subs = append(p.App[0].Subs, MSub{T: 1, Term: &MTerm{TID: oid}})
					}
					b := p.Bytes()
					o, _ := owes(b)
					if l.Fail[k] {
						o.Replies[0].Kind = "nack"
					}
					if err := cl.send(b); err != nil {
						fails[i] = failf("packet %d: %v", k, err)
						return
					}
					if !cl.waitPackets(len(want)+1, total+ioLimit) {
						fails[i] = softf("packet %d is not answered (storage took %d ms): %s", k, l.Hold[k], diffReplies(cl.bytes(), append(want, o.Replies...)))
						return
					}
					mu.Lock()
					n := done[oid]
					mu.Unlock()
					if n == 0 {
						fails[i] = failf("packet %d was answered while the storage, which takes %d ms, had not yet accepted it: %s", k, l.Hold[k], diffReplies(cl.bytes(), append(want, o.Replies...)))
						return
					}
					want = append(want, o.Replies...)
					if !cl.waitPackets(len(want), ioLimit) {
						fails[i] = softf("packet %d: %s", k, diffReplies(cl.bytes(), want))
						return
					}
					if d := diffReplies(cl.bytes(), want); d != "" {
						fails[i] = failf("packet %d (storage took %d ms, fails: %v): %s", k, l.Hold[k], l.Fail[k], d)
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		for i, l := range c.Lines {
			for k := range l.Hold {
				if n := done[uint32(i+1)<<8|uint32(k)]; n != 1 {
					return failf("line %d packet %d: its record reached the storage %d times", i, k, n)
				}
			}
		}
		return nil
	})
}

// ---- S08 --------------------------------------------------------------------------

func genAuthCase(t *rapid.T) StreamCase {
	return StreamCase{Items: genItems(t, 1, 5, "auth", "auth", "auth", "data", "plain", "confirm", "response", "mixed", "bodydamage")}
}

func authResults(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	_, want, _ := streamOf(c.Items)
	n := 0
	for _, w := range want.Replies {
		if w.Kind == "auth" {
			n++
		}
	}
	r.Sub(n)
	if n > 0 && n < len(want.Replies) {
		r.NonTrivial()
	}
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		b, want, _ := streamOf(c.Items)
		got, f := exchange(ts.addr, b, nil, 0)
		if f != nil {
			return f
		}
		if d := diffReplies(got, want.Replies); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// ---- S09 --------------------------------------------------------------------------

type ForeignCase struct {
	Items   []SItem
	Foreign []byte
	After   *SItem `json:",omitempty"` // sent together with the foreign bytes
	Cuts    []int  `json:",omitempty"`
}

func genForeign(t *rapid.T) ForeignCase {
	c := ForeignCase{Items: genItems(t, 0, 4, "response", "confirm", "response", "confirm", "data", "plain")}
	switch gInt(t, 0, 2, "what") {
	case 0:
		c.Foreign = gBytes(t, 10, 60, "foreign", false)
	case 1: // a whole packet of another version, checksums right
		it := genItem(t, "data")
		it.Pkg.PRV = g8(t, "PRV")
		c.Foreign = it.Bytes()
	case 2:
		c.Foreign = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	if c.Foreign[0] == 1 {
		c.Foreign[0] = byte(gInt(t, 2, 256, "first"))
	}
	if gBool(t, "after") {
		it := genItem(t, "data")
		c.After = &it
	}
	if chance(t, 3, "cut") {
		c.Cuts = genCuts(t, c.Foreign, nil, 2)
	}
	return c
}

func foreign(r *Rec, c *ForeignCase) *Failure {
	labelItems(r, c.Items)
	silent := 0
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		cl, err := dial(ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		defer cl.c.Close()
		var want xOut
		for i := range c.Items {
			b := c.Items[i].Bytes()
			o, err := owes(b)
			if err != nil {
				panic(err)
			}
			want.add(o)
			if len(o.Replies) == 0 {
				silent++
			}
			if err := cl.send(b); err != nil {
				return failf("packet %d (%s): %v", i, c.Items[i].Kind, err)
			}
		}
		// the connection stays usable
		p := MPkg{PRV: 1, PID: 31000, PT: 1, App: []MRec{{RN: 77, SST: 2, RST: 2, OID: ptr(uint32(9)), Subs: []MSub{{T: 16, Pos: &MPos{NTM: 9, LAT: 9, LONG: 9}}}}}}
		o, _ := owes(p.Bytes())
		want.add(o)
		if err := cl.send(p.Bytes()); err != nil {
			return failf("a packet after %d unanswered ones: %v", silent, err)
		}
		if !cl.waitPackets(len(want.Replies), ioLimit) {
			if cl.hasEnded() {
				return failf("the server closed the connection; %s", diffReplies(cl.bytes(), want.Replies))
			}
			return softf("%s", diffReplies(cl.bytes(), want.Replies))
		}
		if silent > 0 {
			r.NonTrivial()
			r.Label("unanswered packets")
		}
		r.Sub(silent + 1)
		b := append([]byte{}, c.Foreign...)
		if c.After != nil {
			b = append(b, c.After.Bytes()...)
			r.Label("EGTS packet after the foreign bytes")
		}
		_ = cl.sendCut(b, c.Cuts, 200*time.Microsecond)
		if !cl.waitEnd(ioLimit) {
			return softf("the connection of a peer that sends % x is not closed", clip(c.Foreign))
		}
		if d := diffReplies(cl.bytes(), want.Replies); d != "" {
			return failf("%s", d)
		}
		saves, other := ts.store.snapshot()
		if d := diffSaves(saves, other, flatten(want.Groups)); d != "" {
			return failf("%s", d)
		}
		return nil
	})
}

// ---- S10 --------------------------------------------------------------------------

// Timeline: pieces of a packet stream with gaps in tenths of the ttl.
type Timeline struct {
	Items []SItem
	Cuts  []int // byte offsets at which it pauses
	Gaps  []int // tenths of ttl before each piece
	Stop  int   // bytes sent before it falls silent
}
type IdleCase struct {
	TTL   int // milliseconds
	Lines []Timeline
}

func genIdle(t *rapid.T) IdleCase {
	c := IdleCase{TTL: gInt(t, 10, 18, "ttl") * 100}
	for i, n := 0, gInt(t, 6, 12, "lines"); i < n; i++ {
		l := Timeline{Items: genItems(t, 0, 4, "data", "auth", "mixed", "auth", "plain", "response", "confirm", "bodydamage", "garbage", "headdamage")}
		if chance(t, 4, "large") { // the silences fall into a large packet
			l.Items = []SItem{genItem(t, "huge")}
		}
		b, _, ends := streamOf(l.Items)
		if len(b) > 0 {
			l.Cuts = genCuts(t, b, ends, 5)
			l.Stop = len(b)
			if gBool(t, "mid") {
				l.Stop = gInt(t, 0, len(b), "stop")
			}
		}
		for j := 0; j <= len(l.Cuts); j++ {
			l.Gaps = append(l.Gaps, pick(t, []int{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "gap"))
		}
		c.Lines = append(c.Lines, l)
	}
	return c
}

// LivedCase: connections that send something often enough for a long time.
type LongLine struct {
	Gap   int  // tenths of the ttl between two sendings
	Bytes bool // one byte at a time, otherwise packets
	Auth  bool
}
type LivedCase struct {
	TTL   int // milliseconds
	Secs  int
	Lines []LongLine
}

func genLived(t *rapid.T) LivedCase {
	c := LivedCase{TTL: pick(t, []int{1000, 2000, 3000, 5000, 10000}, "ttl"), Secs: 34}
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.Secs = pick(t, []int{40, 70, 140}, "secs")
	}
	for i := gInt(t, 6, 14, "lines"); i > 0; i-- {
		c.Lines = append(c.Lines, LongLine{Gap: gInt(t, 1, 5, "gap"), Bytes: gBool(t, "bytes"), Auth: gBool(t, "auth")})
	}
	return c
}

func longLived(r *Rec, c *LivedCase) *Failure {
	r.NonTrivial()
	r.Sub(len(c.Lines))
	ttl := time.Duration(c.TTL) * time.Millisecond
	return withServer(r, ttl, func(ts *testServer) *Failure {
		fails := make([]*Failure, len(c.Lines))
		var wg sync.WaitGroup
		for i := range c.Lines {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := &c.Lines[i]
				cl, err := dial(ts.addr)
				if err != nil {
					fails[i] = softf("line %d: %v", i, err)
					return
				}
				defer cl.c.Close()
				var want xOut
				var todo []byte
				owed := xOut{}
				born, last := time.Now(), time.Now()
				for n := 0; time.Since(born) < time.Duration(c.Secs)*time.Second || len(todo) > 0 && l.Bytes && n < 100000; n++ {
					if len(todo) == 0 {
						want.add(owed)
						p := MPkg{PRV: 1, PID: uint16(n), PT: 1, App: []MRec{{RN: uint16(n), SST: 2, RST: 2, OID: ptr(uint32(i + 1)),
							Subs: []MSub{{T: 16, Pos: &MPos{NTM: uint32(n), LAT: uint32(n), LONG: uint32(i)}}}}}}
						if l.Auth && n == 0 {
							p.App[0].Subs = append(p.App[0].Subs, MSub{T: 1, Term: &MTerm{TID: uint32(i)}})
						}
						todo = p.Bytes()
						if owed, err = owes(todo); err != nil {
							panic(err)
						}
					}
					k := len(todo)
					if l.Bytes {
						k = 1
					}
					err := cl.send(todo[:k])
					now := time.Now()
					if now.Sub(last) > ttl*9/10 {
						return // this process was late itself
					}
					if err != nil || cl.hasEnded() {
						fails[i] = softf("line %d: closed after %v though something was sent every %v (ttl %v)", i, now.Sub(born).Round(time.Millisecond), ttl/10*time.Duration(l.Gap), ttl)
						return
					}
					last, todo = now, todo[k:]
					gap := ttl / 10 * time.Duration(l.Gap)
					if l.Bytes && time.Since(born) > time.Duration(c.Secs)*time.Second {
						gap = 0 // the rest of the packet
					}
					time.Sleep(gap)
				}
				want.add(owed)
				_ = cl.c.CloseWrite()
				if !cl.waitEnd(ioLimit) {
					fails[i] = softf("line %d: not finished", i)
					return
				}
				if d := diffReplies(cl.bytes(), want.Replies); d != "" {
					fails[i] = failf("line %d: after %v: %s", i, time.Since(born), d)
				}
			}()
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		return nil
	})
}

func idle(r *Rec, c *IdleCase) *Failure {
	ttl := time.Duration(c.TTL) * time.Millisecond
	tenth := ttl / 10
	slack := ttl * 2 / 10
	early := ttl * 98 / 100 // the clock starts when data is on its way, so it cannot run out before
	// lateness of this process as seen by a ticker
	var worst atomic.Int64
	stopTick := make(chan struct{})
	go func() {
		last := time.Now()
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(10 * time.Millisecond):
			}
			if d := time.Since(last) - 10*time.Millisecond; int64(d) > worst.Load() {
				worst.Store(int64(d))
			}
			last = time.Now()
		}
	}()
	defer close(stopTick)
	f := withServer(r, ttl, func(ts *testServer) *Failure {
		fails := make([]*Failure, len(c.Lines))
		var wg sync.WaitGroup
		for i := range c.Lines {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				l := &c.Lines[i]
				b, _, ends := streamOf(l.Items)
				b = b[:min(l.Stop, len(b))]
				last, done := time.Now(), time.Now() // before and after the last sending
				cl, err := dial(ts.addr)
				if err != nil {
					fails[i] = softf("line %d: %v", i, err)
					return
				}
				defer cl.c.Close()
				done = time.Now()
				var maxGap time.Duration
				at := 0
				cuts := append(append([]int{}, l.Cuts...), len(b))
				for k, x := range cuts {
					if x > len(b) {
						x = len(b)
					}
					if x <= at {
						continue
					}
					time.Sleep(tenth * time.Duration(l.Gaps[k]))
					if cl.hasEnded() {
						if d := cl.endAt.Sub(last); d < early && maxGap < early {
							fails[i] = softf("line %d: closed after %d of %d bytes with gaps of at most %v (ttl %v)", i, at, len(b), maxDur(maxGap, d), ttl)
						}
						return
					}
					began := time.Now()
					err := cl.send(b[at:x])
					if d := time.Since(last); d > maxGap {
						maxGap = d
					}
					if err != nil {
						if maxGap < early {
							fails[i] = softf("line %d: closed while active (gaps of at most %v, ttl %v)", i, maxGap, ttl)
						}
						return
					}
					last, done = began, time.Now()
					at = x
				}
				if maxGap >= early {
					return // this process was late itself
				}
				// silence from here on
				wait := ttl + slack
				if at > 20000 { // it is still being worked on
					wait += 3 * time.Second
				}
				if !cl.waitEnd(time.Until(done.Add(wait))) {
					fails[i] = softf("line %d: still open %v after its last data, %d of %d bytes sent (ttl %v)", i, time.Since(last).Round(time.Millisecond), at, len(b), ttl)
					return
				}
				if d := cl.endAt.Sub(last); d < early {
					fails[i] = softf("line %d: closed %v after its last data (ttl %v)", i, d, ttl)
					return
				}
				// what was complete has been answered
				var o xOut
				for k := range l.Items {
					if ends[k] <= at {
						x, _ := owes(l.Items[k].Bytes())
						o.add(x)
					}
				}
				if d := diffReplies(cl.bytes(), o.Replies); d != "" {
					fails[i] = failf("line %d: %s", i, d)
				}
			}(i)
		}
		wg.Wait()
		for _, f := range fails {
			if f != nil {
				return f
			}
		}
		return nil
	})
	long := 0
	for _, l := range c.Lines {
		sum := 0
		for _, g := range l.Gaps {
			sum += g
		}
		if sum > 10 {
			long++
			r.Label("active for longer than ttl")
		}
		r.LabelIf(l.Stop == 0, "never sent anything")
		_, _, ends := streamOf(l.Items)
		mid := l.Stop > 0
		for _, e := range ends {
			if e == l.Stop {
				mid = false
			}
		}
		r.LabelIf(mid, "silent inside a packet")
	}
	r.Sub(len(c.Lines))
	if long > 0 {
		r.NonTrivial()
	}
	if f != nil && f.Soft && time.Duration(worst.Load()) > ttl/10 {
		r.Inconclusive("machine too slow for timing")
		return nil
	}
	return f
}

// StallCase: a client that sends packets and never reads what it gets back.
type StallCase struct {
	TTL  int // milliseconds
	Recs int // records per packet; 0: damaged packets
	Half bool
}

func genStall(t *rapid.T) StallCase {
	c := StallCase{TTL: gInt(t, 5, 12, "ttl") * 100, Recs: gInt(t, 1500, 8000, "recs"), Half: chance(t, 3, "half")}
	if chance(t, 3, "damaged") {
		c.Recs = 0
	}
	return c
}

// tcpOpen tells whether the kernel still considers the connection established.
func tcpOpen(c *net.TCPConn) bool {
	rc, err := c.SyscallConn()
	if err != nil {
		return false
	}
	open := false
	_ = rc.Control(func(fd uintptr) {
		var info [8]byte // struct tcp_info starts with the state
		n := uint32(len(info))
		_, _, e := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO, uintptr(unsafe.Pointer(&info)), uintptr(unsafe.Pointer(&n)), 0)
		open = e == 0 && info[0] >= 1 && info[0] <= 5 // established, or closing from our side only
	})
	return open
}

// diagQueues asks the kernel for one connection's queues: bytes received and
// not read, bytes sent and not acknowledged. ok is false where sock_diag is missing.
func diagQueues(l, r *net.TCPAddr) (q string, ok bool) {
	fd, err := syscall.Socket(syscall.AF_NETLINK, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 4) // NETLINK_SOCK_DIAG
	if err != nil {
		return "", false
	}
	defer syscall.Close(fd)
	_ = syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 1})
	m := make([]byte, 72)
	binary.NativeEndian.PutUint32(m, 72)
	binary.NativeEndian.PutUint16(m[4:], 20) // SOCK_DIAG_BY_FAMILY
	binary.NativeEndian.PutUint16(m[6:], 1)  // NLM_F_REQUEST
	m[16], m[17] = syscall.AF_INET, syscall.IPPROTO_TCP
	binary.NativeEndian.PutUint32(m[20:], 0xFFFFFFFF)
	binary.BigEndian.PutUint16(m[24:], uint16(l.Port))
	binary.BigEndian.PutUint16(m[26:], uint16(r.Port))
	copy(m[28:], l.IP.To4())
	copy(m[44:], r.IP.To4())
	binary.NativeEndian.PutUint64(m[64:], ^uint64(0)) // no cookie
	if err := syscall.Sendto(fd, m, 0, &syscall.SockaddrNetlink{Family: syscall.AF_NETLINK}); err != nil {
		return "", false
	}
	var b [1024]byte
	n, _, err := syscall.Recvfrom(fd, b[:], 0)
	if err != nil || n < 20 {
		return "", false
	}
	switch t := binary.NativeEndian.Uint16(b[4:]); {
	case t == 20 && n >= 16+64:
		return fmt.Sprintf("%x", b[16+56:16+64]), true
	case t == syscall.NLMSG_ERROR && int32(binary.NativeEndian.Uint32(b[16:])) == -int32(syscall.ENOENT):
		return "gone", true
	}
	return "", false
}

// kernelQueues returns what the kernel holds for both ends of a loopback
// connection: bytes sent and not acknowledged, bytes received and not read.
func kernelQueues(c *net.TCPConn) string {
	if l, ok := c.LocalAddr().(*net.TCPAddr); ok && l.IP.To4() != nil {
		p := c.RemoteAddr().(*net.TCPAddr)
		x, ok1 := diagQueues(l, p)
		y, ok2 := diagQueues(p, l)
		if ok1 && ok2 {
			return x + " " + y
		}
	}
	data, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return ""
	}
	end := func(a net.Addr) string {
		t := a.(*net.TCPAddr)
		ip := t.IP.To4()
		if ip == nil {
			return "-"
		}
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], t.Port)
	}
	l, r := end(c.LocalAddr()), end(c.RemoteAddr())
	var out []string
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) > 4 && (f[1] == l && f[2] == r || f[1] == r && f[2] == l) {
			out = append(out, f[1]+f[4])
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// stalled: silence of the peer counts when it also stops reading.
func stalled(r *Rec, c *StallCase) *Failure {
	ttl := time.Duration(c.TTL) * time.Millisecond
	p := MPkg{PRV: 1, PID: 1, PT: 1}
	for i := 0; i < c.Recs; i++ {
		p.App = append(p.App, MRec{RN: uint16(i), SST: 2, RST: 2})
	}
	b, packets := p.Bytes(), 1
	if c.Recs == 0 {
		b[10]++
		b, packets = bytes.Repeat(b[:11], 5000), 5000
		r.Label("damaged packets")
	}
	return withServer(r, ttl, func(ts *testServer) *Failure {
		d := net.Dialer{Timeout: ioLimit, Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		x, err := d.Dial("tcp", ts.addr)
		if err != nil {
			return softf("dial: %v", err)
		}
		conn := x.(*net.TCPConn)
		defer func() { _ = conn.SetLinger(0); conn.Close() }()
		// send until the server takes no more: it waits for us to read
		sent, full := 0, false
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
			_ = conn.SetWriteDeadline(time.Now().Add(150 * time.Millisecond))
			n, err := conn.Write(b)
			sent += n
			if errors.Is(err, os.ErrDeadlineExceeded) {
				full = true
				break
			}
			if err != nil {
				r.Label("closed while sending")
				return nil
			}
			if sent > 256<<20 {
				break
			}
		}
		if !full {
			r.Label("the server takes everything")
			return nil
		}
		r.NonTrivial()
		r.Sub(sent * packets / len(b))
		if c.Half {
			_ = conn.CloseWrite()
		}
		// the server first works off what it has already received; the clock
		// starts anew with every sign of that
		limit := 4*ttl + 4*time.Second
		queues, since := "", time.Now()
		for began := time.Now(); tcpOpen(conn); time.Sleep(10 * time.Millisecond) {
			if q := kernelQueues(conn); q != queues && time.Since(began) < time.Minute {
				queues, since = q, time.Now()
			}
			if d := time.Since(since); d > limit {
				return softf("a connection whose client neither sends nor reads is still open after %v (ttl %v); it sent %d packets before", d.Round(time.Millisecond), ttl, sent*packets/len(b))
			}
		}
		return probe(ts.addr, nil, 55)
	})
}

func maxDur(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

// ---- S11 --------------------------------------------------------------------------

type StopCase struct {
	When    string // served: after the connections; starting: while Run starts; first: before Run is called
	DelayUs int    // starting: between the call of Run and that of Stop
	Before  int    // connections served before the stop
	Open    int    // of them left open
	Busy    bool   // the open ones go on sending while the server is stopped
	After   int
	Racing  int  // dials started together with the stop
	Twice   int  // further calls of Stop
	Others  int  // other servers of the process, which must not notice
	Again   bool // another server takes over the address
}

func genStop(t *rapid.T) StopCase {
	c := StopCase{When: pick(t, []string{"served", "served", "served", "starting", "first"}, "when"), After: gInt(t, 1, 3, "after"),
		Twice: pick(t, []int{0, 0, 0, 1, 2}, "twice"), Others: pick(t, []int{0, 0, 1, 2}, "others"), Again: gBool(t, "again")}
	switch c.When {
	case "served":
		c.Before = gInt(t, 0, 5, "before")
		if chance(t, 12, "crowd") {
			c.Before = gInt(t, 20, 60, "crowd")
		}
		c.Open = gInt(t, 0, c.Before, "open")
		c.Busy = c.Open > 0 && gBool(t, "busy")
		c.Racing = gInt(t, 0, 3, "racing")
	case "starting":
		c.DelayUs = pick(t, []int{0, 0, 1, 10, 50, 100, 300, 1000}, "delay")
	}
	return c
}

func stopping(r *Rec, c *StopCase) *Failure {
	r.NonTrivial()
	r.Label(c.When)
	r.LabelIf(c.Open > 0, "with open connections")
	r.LabelIf(c.Racing > 0, "connections during the stop")
	r.LabelIf(c.Others > 0, "with other servers")
	repo := storage.NewRepository()
	st := &recStore{}
	repo.AddStore(st)
	addr, err := freeAddr()
	if err != nil {
		r.Inconclusive("no address")
		return nil
	}
	pkt := func(i int) ([]byte, []xReply) {
		p := MPkg{PRV: 1, PID: uint16(i), PT: 1, App: []MRec{{RN: uint16(i), SST: 2, RST: 2, OID: ptr(uint32(i)), Subs: []MSub{{T: 16, Pos: &MPos{NTM: uint32(i)}}}}}}
		o, _ := owes(p.Bytes())
		return p.Bytes(), o.Replies
	}
	// one connection, one packet, one confirmation
	serve := func(addr string, i int, what string) (*client, *Failure) {
		cl, err := dial(addr)
		if err != nil {
			return nil, softf("%s: %v", what, err)
		}
		b, want := pkt(i)
		_ = cl.send(b)
		if !cl.waitPackets(1, ioLimit) {
			cl.c.Close()
			return nil, softf("%s is not served", what)
		}
		if d := diffReplies(cl.bytes(), want); d != "" {
			cl.c.Close()
			return nil, failf("%s: %s", what, d)
		}
		return cl, nil
	}
	var others []*testServer
	for i := 0; i < c.Others; i++ {
		ts, err := startServer(longTTL)
		if err != nil {
			r.Inconclusive("another server: " + err.Error())
			return nil
		}
		defer ts.stop()
		others = append(others, ts)
	}
	otherClients := []*client{}
	for i, ts := range others {
		cl, f := serve(ts.addr, i, "another server before the stop")
		if f != nil {
			return f
		}
		defer cl.c.Close()
		otherClients = append(otherClients, cl)
	}
	srv := server.New(addr, longTTL, repo)
	done := make(chan struct{})
	run := func() {
		go func() { defer close(done); srv.Run() }()
	}
	var open []*client
	switch c.When {
	case "starting":
		run()
		if c.DelayUs > 0 {
			time.Sleep(time.Duration(c.DelayUs) * time.Microsecond)
		}
	case "served":
		run()
		up := false
		for end := time.Now().Add(ioLimit); time.Now().Before(end) && !up; {
			if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				c.Close()
				up = true
			} else {
				time.Sleep(200 * time.Microsecond)
			}
		}
		if !up {
			return softf("the server does not accept connections")
		}
		for i := 0; i < c.Before; i++ {
			cl, f := serve(addr, i, fmt.Sprintf("connection %d before the stop", i))
			if f != nil {
				return f
			}
			if i < c.Open {
				defer cl.c.Close()
				open = append(open, cl)
			} else {
				cl.c.Close()
			}
		}
		select {
		case <-done:
			return failf("Run returned although the server was not stopped")
		default:
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < c.Racing; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				c.Close()
			}
		}()
	}
	quit := make(chan struct{})
	var stopQuit sync.Once
	endBusy := func() { stopQuit.Do(func() { close(quit) }); wg.Wait() }
	defer endBusy()
	if c.Busy {
		for _, cl := range open {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b, _ := pkt(77)
				for i := 0; i < 2000; i++ {
					select {
					case <-quit:
						return
					default:
					}
					if cl.send(b) != nil {
						return
					}
					time.Sleep(100 * time.Microsecond)
				}
			}()
		}
	}
	if err = srv.Stop(); err != nil {
		return failf("Stop: %v", err)
	}
	for i := 0; i < c.Twice; i++ {
		_ = srv.Stop() // nothing left to stop: whatever it says
	}
	if c.When == "first" {
		run()
	}
	late := func(i int) *Failure {
		cl, err := dial(addr)
		if err != nil {
			return nil
		}
		b, _ := pkt(1000 + i)
		_ = cl.send(b)
		_ = cl.c.CloseWrite()
		cl.waitEnd(2 * time.Second)
		n := len(cl.bytes())
		cl.c.Close()
		if n > 0 {
			return failf("a connection made after Stop (%s) is served (%d bytes)", c.When, n)
		}
		return nil
	}
	for i := 0; i < c.After; i++ { // at once, before anything had time to wind down
		if f := late(100 + i); f != nil {
			return f
		}
	}
	select {
	case <-done:
	case <-time.After(ioLimit):
		return softf("Run has not returned %v after Stop (%s)", ioLimit, c.When)
	}
	for i := 0; i < c.After; i++ {
		if f := late(i); f != nil {
			return f
		}
		if c.Open > 0 {
			time.Sleep(time.Millisecond)
		}
	}
	endBusy()
	saves, _ := st.snapshot()
	for _, s := range saves {
		if s.ClientID >= 1000 {
			return failf("a record sent after Stop was stored")
		}
	}
	for i, ts := range others {
		select {
		case <-ts.done:
			return failf("Run of another server has returned")
		default:
		}
		cl, f := serve(ts.addr, 10+i, "a new connection to another server after the stop")
		if f != nil {
			return f
		}
		cl.c.Close()
		b, _ := pkt(20 + i)
		_ = otherClients[i].send(b)
		if !otherClients[i].waitPackets(2, ioLimit) {
			return softf("an open connection to another server is not served after the stop")
		}
	}
	if c.Again {
		next := server.New(addr, longTTL, repo)
		ended := make(chan struct{})
		go func() { defer close(ended); next.Run() }()
		var cl *client
		for end := time.Now().Add(ioLimit); time.Now().Before(end) && cl == nil; {
			if cl, _ = dial(addr); cl == nil {
				time.Sleep(200 * time.Microsecond)
			}
		}
		if cl == nil {
			return softf("a server started on the address of a stopped one does not accept connections")
		}
		defer cl.c.Close()
		b, want := pkt(500)
		_ = cl.send(b)
		if !cl.waitPackets(1, ioLimit) {
			return softf("a server started on the address of a stopped one does not serve")
		}
		if d := diffReplies(cl.bytes(), want); d != "" {
			return failf("a server started on the address of a stopped one: %s", d)
		}
		if err := next.Stop(); err != nil {
			return failf("Stop of the second server: %v", err)
		}
		select {
		case <-ended:
		case <-time.After(ioLimit):
			return softf("Run of the second server has not returned %v after Stop", ioLimit)
		}
	}
	r.Sub(c.Before + c.After + 2*c.Others)
	return nil
}

// ---- S12 --------------------------------------------------------------------------

func genSensorCase(t *rapid.T) StreamCase {
	c := StreamCase{}
	for i, n := 0, gInt(t, 1, 4, "packets"); i < n; i++ {
		it := SItem{Kind: "sensors", Pkg: genHeader(t, genOpt{PT: 1})}
		oid := o32(t, "OID")
		nr := gInt(t, 1, 4, "recs")
		idIn := -1
		var cntIn []int
		if gBool(t, "counters") {
			cntIn = append(cntIn, gInt(t, 0, nr-1, "cnt"))
		}
		many := chance(t, 3, "objects") // several objects in the packet
		if many {
			if gBool(t, "more counters") {
				cntIn = append(cntIn, gInt(t, 0, nr-1, "cnt"))
			}
		} else if gBool(t, "identity") {
			idIn = gInt(t, 0, nr-1, "id")
		}
		for j := 0; j < nr; j++ {
			rec := genRecHead(t)
			rec.OID = oid
			if many {
				rec.OID = nil
				if o := gInt(t, -1, 3, "object"); o >= 0 {
					v := uint32(o)
					rec.OID = &v
				}
			}
			for s, q := 0, gInt(t, 0, 4, "subs"); s < q; s++ {
				x := genSub(t, pick(t, []byte{16, 16, 18, 18, 24, 24, 27, 27, 17, 19, 21, 25, 5}, "SRT"), genOpt{}.norm())
				if x.AbsCnt != nil && (x.AbsCnt.N == 110 || x.AbsCnt.N == 111) {
					x.AbsCnt.N = 109
				}
				rec.Subs = append(rec.Subs, x)
			}
			ins := func(x MSub) {
				at := gInt(t, 0, len(rec.Subs), "at")
				rec.Subs = append(rec.Subs[:at:at], append([]MSub{x}, rec.Subs[at:]...)...)
			}
			for _, at := range cntIn {
				if at != j {
					continue
				}
				lo, hi := MSub{T: 25, AbsCnt: &MNum{110, g24(t, "low")}}, MSub{T: 25, AbsCnt: &MNum{111, uint32(g8(t, "high"))}}
				only := gInt(t, 0, 9, "only")
				if only != 0 {
					ins(lo)
				}
				if only != 1 {
					ins(hi)
				}
			}
			if j == idIn {
				x := genSub(t, 1, genOpt{}.norm())
				if x.Term.IMEI == nil && gBool(t, "imei") {
					x.Term.IMEI = gBytes(t, 15, 15, "IMEI", true)
				}
				ins(x)
			}
			if j == nr-1 || many && gBool(t, "position") {
				ins(MSub{T: 16, Pos: genPos(t, false)})
			}
			it.Pkg.App = append(it.Pkg.App, rec)
		}
		c.Items = append(c.Items, it)
		if chance(t, 4, "between") {
			c.Items = append(c.Items, genItem(t, "plain"))
		}
	}
	return c
}

func sensors(r *Rec, c *StreamCase) *Failure {
	labelItems(r, c.Items)
	b, want, _ := streamOf(c.Items)
	for _, g := range want.Groups {
		r.LabelIf(len(g.An) > 0, "analog sensors")
		r.LabelIf(len(g.Liq) > 0, "liquid level sensors")
		r.LabelIf(g.IMEI != nil, "IMEI")
		r.LabelIf(g.NumX, "record number from counters")
		if len(g.An)+len(g.Liq) > 1 {
			r.NonTrivial()
		}
	}
	r.Sub(len(want.Groups))
	return withServer(r, longTTL, func(ts *testServer) *Failure {
		from := time.Now().Add(-1100 * time.Millisecond) // the receive time has whole seconds
		_, f := exchange(ts.addr, b, nil, 0)
		if f != nil {
			return f
		}
		to := time.Now()
		saves, other := ts.store.snapshot()
		if len(other) > 0 || len(saves) != len(want.Groups) {
			return failf("%d records stored, %d expected", len(saves), len(want.Groups))
		}
		for i := range saves {
			if d := diffSensors(&saves[i], &want.Groups[i], from, to); d != "" {
				return failf("stored record %d: %s", i, d)
			}
		}
		return nil
	})
}

// WaitCase: packets on one connection with pauses between them, so that every
// record has a receive time of its own.
type WaitCase struct {
	Parts  []StreamCase
	Before []int // ms before each part
}

func genWaits(t *rapid.T) WaitCase {
	c := WaitCase{}
	for i, n := 0, gInt(t, 1, 3, "parts"); i < n; i++ {
		c.Parts = append(c.Parts, genSensorCase(t))
		c.Before = append(c.Before, gInt(t, 2300, 3600, "pause"))
	}
	return c
}

func waitTimes(r *Rec, c *WaitCase) *Failure {
	r.NonTrivial()
	return withServer(r, 60*time.Second, func(ts *testServer) *Failure {
		conn, err := dial(ts.addr)
		if err != nil {
			return softf("no connection: %v", err)
		}
		defer conn.abort()
		done := 0
		for i := range c.Parts {
			time.Sleep(time.Duration(c.Before[i]) * time.Millisecond)
			b, want, _ := streamOf(c.Parts[i].Items)
			r.Sub(len(want.Groups))
			from := time.Now().Add(-1100 * time.Millisecond)
			if err := conn.send(b); err != nil {
				return softf("part %d: the connection is broken: %v", i, err)
			}
			for dl := time.Now().Add(8 * time.Second); ts.store.stored() < done+len(want.Groups) && time.Now().Before(dl); {
				time.Sleep(2 * time.Millisecond)
			}
			to := time.Now()
			saves, _ := ts.store.snapshot()
			if len(saves) != done+len(want.Groups) {
				return softf("%d records stored, %d expected", len(saves), done+len(want.Groups))
			}
			for k := range want.Groups {
				if d := diffSensors(&saves[done+k], &want.Groups[k], from, to); d != "" {
					return softf("part %d, sent at %s on a connection opened before: stored record %d: %s", i, from.UTC().Format("15:04:05"), k, d)
				}
			}
			done = len(saves)
		}
		return nil
	})
}

func diffSensors(s *storage.NavRecord, g *xGroup, from, to time.Time) string {
	if s.ServerID != "EGTS_GATE0" {
		return fmt.Sprintf("server id %q", s.ServerID)
	}
	t, err := time.Parse(time.RFC3339, s.ReceivedDt)
	if err != nil || t.Before(from) || t.After(to) {
		return fmt.Sprintf("receive time %q", s.ReceivedDt)
	}
	if s.ClientID != g.OID {
		return fmt.Sprintf("object %d, sent %d", s.ClientID, g.OID)
	}
	if a, b := bytes.TrimRight([]byte(s.IMEI), "\x00"), bytes.TrimRight(g.IMEI, "\x00"); !bytes.Equal(a, b) {
		return fmt.Sprintf("IMEI %q, sent %q", a, b)
	}
	num := uint32(g.PID)
	if g.NumX {
		num = g.Num
	}
	if s.PacketID != num {
		return fmt.Sprintf("record number %d (%#x), sent %d (%#x)", s.PacketID, s.PacketID, num, num)
	}
	if len(s.AnSensors) != len(g.An) {
		return fmt.Sprintf("%d analog readings, sent %d", len(s.AnSensors), len(g.An))
	}
	for i, a := range s.AnSensors {
		if a != g.An[i] {
			return fmt.Sprintf("analog reading %d: %+v, sent %+v", i, a, g.An[i])
		}
	}
	if len(s.LiquidSensors) != len(g.Liq) {
		return fmt.Sprintf("%d liquid level readings, sent %d", len(s.LiquidSensors), len(g.Liq))
	}
	for i, l := range s.LiquidSensors {
		w := g.Liq[i]
		e := storage.LiquidSensor{SensorNumber: w.N, ModuleNumber: w.ADDR, ErrorFlag: fmt.Sprintf("%b", w.EF), ValueUnit: fmt.Sprintf("%02b", w.VU)}
		switch w.VU {
		case 0, 1:
			e.ValueMm = w.DATA
		case 2:
			e.ValueL = float64(w.DATA) / 10
		default:
			e.ValueMm, e.ValueL = l.ValueMm, l.ValueL
		}
		if d := l.ValueL - e.ValueL; d > 1e-6 || d < -1e-6 {
			return fmt.Sprintf("liquid level reading %d: %+v, sent %+v", i, l, e)
		}
		l.ValueL = e.ValueL
		if l != e {
			return fmt.Sprintf("liquid level reading %d: %+v, sent %+v", i, l, e)
		}
	}
	return ""
}

func init() {
	register(&Check{ID: "S01", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("long", "every case: 100-700 packets on one connection", 60, 800, genLong, longStream),
		slow(part("marathon", "every case: over 65536 packets on one connection", 1, 6, genMarathon, marathon)),
		part("stream", "at least two application packets to confirm on one connection", 800, 10000, genConfirmCase, confirmations),
		slow(part("late", "the client reads only when every buffer is full", 1, 50, genLate, lateReader)),
		part("lockstep", "a confirmation awaited after an earlier packet", 500, 7000, func(t *rapid.T) StreamCase {
			return StreamCase{Items: genItems(t, 1, 5, goodKinds...)}
		}, lockstep),
	}})
	register(&Check{ID: "S02", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("positions", "at least two positions to store", 1500, 20000, genStoreCase, storedOnce),
		part("bulk", "more than 60 positions in the stream", 120, 2000, func(t *rapid.T) StreamCase {
			c := StreamCase{Items: genItems(t, 0, 1, "data", "plain")}
			c.Items = append(append(c.Items, genBulk(t)), genItems(t, 0, 1, "data", "auth")...)
			return c
		}, storedBulk),
		part("close", "several packets and positions, the client closes at once", 200, 3000, genStoreCase, storedAfterClose),
		part("beside", "another storage has refused records", 250, 3000, func(t *rapid.T) BesideCase {
			return BesideCase{S: genStoreCase(t), Fail: rapid.SliceOfN(rapid.Bool(), 0, 4).Draw(t, "fail"), First: gBool(t, "first"), Err: gInt(t, 0, 30, "error")}
		}, storedBeside),
	}})
	pieces := part("slow", "every case: pieces of packets up to seconds apart", 1, 0, genSlow(12000), slowPieces)
	longer := part("slower", "every case: pieces of packets up to half a minute apart", 0, 6, genSlow(45000), slowPieces)
	pieces.Shrink, longer.Shrink = time.Second, time.Second
	register(&Check{ID: "S03", Shards: 6, Setup: quietLogs, Parts: []*Part{
		slow(pieces), slow(longer),
		part("segments", "a segment boundary with a pause inside a packet", 300, 5000, genSegCase, segmentation),
	}})
	register(&Check{ID: "S04", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("damage", "damaged and intact packets on one connection", 1500, 20000, genDamageStream, damagedStream),
		part("runs", "every case: long runs of damaged packets between intact ones", 60, 800, genDamageRuns, longStream),
	}})
	register(&Check{ID: "S05", Shards: 4, Setup: quietLogs, Parts: []*Part{
		part("mixed", "at least two well-behaved connections at once", 400, 6000, genMany, manyConns),
		part("storm", "every case: 4 to 24 busy connections", 120, 2000, genStorm, storm),
		part("hundreds", "every case: 80 to 2100 simultaneous connections", 20, 200, genHundreds, hundreds),
		part("held", "every case: records that are being stored for a while", 30, 600, genHeld, heldUp),
	}})
	register(&Check{ID: "S06", Shards: 6, Setup: prepPrograms, Parts: []*Part{
		part("attacks", "an attack of more than ten bytes", 800, 12000, genAttack, survives),
		part("exhaustion", "every case: more connections than file descriptors", 3, 40, genExhaust, exhaustion),
		slow(part("program", "an attack of more than ten bytes", 150, 3000, genAttack, progAttacks)),
		slow(part("memory", "every case: megabytes or thousands of connections", 2, 20, genLeak, leaks)),
		slow(part("crowd", "every case: more simultaneous connections than descriptors", 4, 60, genCrowd, crowd)),
	}})
	hold := part("slow", "every case: a storage that takes up to seconds", 1, 0, genHold(12000), slowStorage)
	holds := part("slower", "every case: a storage that takes up to half a minute", 0, 6, genHold(40000), slowStorage)
	hold.Shrink, holds.Shrink = time.Second, time.Second
	register(&Check{ID: "S07", Shards: 6, Setup: quietLogs, Parts: []*Part{
		slow(hold), slow(holds),
		part("save", "a storage call held open or failing", 1000, 12000, genSave, saveGuard),
	}})
	register(&Check{ID: "S08", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("auth", "authorization requests among other packets", 1500, 20000, genAuthCase, authResults),
	}})
	register(&Check{ID: "S09", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("foreign", "packets that must not be answered before the foreign bytes", 1200, 15000, genForeign, foreign),
	}})
	stall := slow(part("stalled", "the server's replies have filled every buffer", 1, 12, genStall, stalled))
	stall.Shrink = time.Millisecond
	longPart := part("long", "every case: connections that stay active for long", 1, 2, genLived, longLived)
	longPart.Shrink = time.Millisecond
	longPart.CaseLimit = 300 * time.Second
	register(&Check{ID: "S10", Shards: 8, Setup: quietLogs, Parts: []*Part{
		part("idle", "a connection active for longer than the ttl in total", 4, 30, genIdle, idle),
		stall,
		longPart,
	}})
	register(&Check{ID: "S11", Shards: 4, Setup: quietLogs, Parts: []*Part{
		part("stop", "every case: a server is stopped", 400, 6000, genStop, stopping),
	}})
	waits := part("times", "every case: packets seconds apart on one connection", 2, 40, genWaits, waitTimes)
	waits.Shrink = time.Millisecond
	register(&Check{ID: "S12", Shards: 6, Setup: quietLogs, Parts: []*Part{
		part("sensors", "a stored record with at least two sensor readings", 1500, 20000, genSensorCase, sensors),
		slow(waits),
	}})
}
