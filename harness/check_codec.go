package main

// Checks C01-C02, C06-C10: the codec against the reference model.

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"pgregory.net/rapid"
)

// PktCase is a packet of the model plus how it is handed to the library.
type PktCase struct {
	P MPkg
	O convOpt
}

func hx(b []byte) string {
	if len(b) > 400 {
		return hex.EncodeToString(b[:400]) + "..."
	}
	return hex.EncodeToString(b)
}

func genPktCase(o genOpt) func(t *rapid.T) PktCase {
	return func(t *rapid.T) PktCase {
		return PktCase{genPkg(t, o), convOpt{gBool(t, "strip"), gBool(t, "zeroType")}}
	}
}

// genBig makes packets with long sections and many records, up to the 16-bit limits.
func genBig(kmh bool) func(t *rapid.T) PktCase {
	return func(t *rapid.T) PktCase {
		o := genOpt{MaxRecs: 3, MaxSubs: 3, MaxStr: 3000, Kmh: kmh, PT: -1}.norm()
		p := genPkg(t, o)
		switch gInt(t, 0, 2, "big") {
		case 0: // many records
			one := genRecs(t, genOpt{MaxRecs: 3, MaxSubs: 3, Kmh: kmh}.norm(), 1)
			n := gInt(t, 1, 400, "repeat")
			for i := 0; i < n; i++ {
				for _, r := range one {
					r.RN = uint16(i)
					if len(encRecs(p.recs()))+len(r.Bytes()) > 65000 {
						break
					}
					if p.Resp != nil {
						p.Resp.SDR = append(p.Resp.SDR, r)
					} else {
						p.App = append(p.App, r)
					}
				}
			}
		case 1: // many subrecords
			if len(p.recs()) > 0 {
				r := &p.recs()[0]
				s := genSub(t, pick(t, allSubs, "srt"), o)
				n := gInt(t, 1, 500, "repeat")
				for i := 0; i < n && len(encRecs(p.recs()))+len(s.Bytes()) <= 65000; i++ {
					r.Subs = append(r.Subs, s)
				}
			}
		}
		if len(p.body()) > 65535 {
			p.App, p.Resp, p.PT = nil, nil, 1
		}
		return PktCase{p, convOpt{}}
	}
}

// MostCase is a packet filled with as many records, or a record filled with as many subrecords, as the 16-bit
// lengths allow (or with N of them): the first record or subrecord of P is repeated.
type MostCase struct {
	P    MPkg
	O    convOpt
	Subs bool // repeat the subrecords of the first record, otherwise the records
	N    int
}

func genMost(kmh bool) func(t *rapid.T) MostCase {
	return func(t *rapid.T) MostCase {
		o := genOpt{MaxRecs: 1, MaxSubs: 2, Kmh: kmh, PT: -1}
		c := MostCase{P: genPkg(t, o), O: convOpt{gBool(t, "strip"), gBool(t, "zeroType")}, Subs: gBool(t, "subs")}
		if len(c.P.recs()) == 0 {
			rs := genRecs(t, o.norm(), 1)
			if c.P.Resp != nil {
				c.P.Resp.SDR = rs
			} else {
				c.P.App = rs
			}
		}
		if rs := c.P.recs(); len(rs) > 0 && chance(t, 2, "small") { // the smallest units make the highest counts
			x := &rs[0]
			if x.Subs = nil; c.Subs {
				x.Subs = []MSub{genSub(t, 9, o.norm())}
			} else if gBool(t, "bare") {
				x.OID, x.EVID, x.TM = nil, nil, nil
			}
		}
		c.N = pick(t, []int{70000, 70000, 70000, 255, 256, 257, 1023, 1024, 1025, 2049, 4097, 8193, 16000}, "n")
		return c
	}
}

func (c *MostCase) pkt() *PktCase {
	q := &PktCase{c.P, c.O}
	rs := append([]MRec{}, c.P.recs()...)
	if len(rs) == 0 {
		return q
	}
	size := 0
	if c.P.Resp != nil {
		size = 3
	}
	for i := range rs {
		size += len(rs[i].Bytes())
	}
	if c.Subs {
		one := 0
		for i := range rs[0].Subs {
			one += len(rs[0].Subs[i].Bytes())
		}
		var all []MSub
		all = append(all, rs[0].Subs...)
		for k := 1; one > 0 && k < c.N && size+one <= 65535; k++ {
			all = append(all, rs[0].Subs...)
			size += one
		}
		rs[0].Subs = all
	} else {
		one := len(rs[0].Bytes())
		for k := 1; k < c.N && size+one <= 65535; k++ {
			x := rs[0]
			x.RN += uint16(k)
			rs = append(rs, x)
			size += one
		}
	}
	if c.P.Resp != nil {
		x := *c.P.Resp
		x.SDR = rs
		q.P.Resp = &x
	} else {
		q.P.App = rs
	}
	return q
}

// most runs a packet oracle on a packet filled to the limits.
func most(f func(r *Rec, c *PktCase) *Failure) func(r *Rec, c *MostCase) *Failure {
	return func(r *Rec, c *MostCase) *Failure {
		q := c.pkt()
		if n := len(q.P.recs()); n > 8192 {
			r.Label("over 8192 records")
		} else if n > 0 && len(q.P.recs()[0].Subs) > 8192 {
			r.Label("over 8192 subrecords in a record")
		}
		if len(q.P.recs()) > 1 || q.P.subCount() > 1 {
			r.NonTrivial()
		}
		return f(r, q)
	}
}

func roundTrip(r *Rec, c *PktCase) *Failure {
	labelPkg(r, &c.P)
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	x := c.P.toSUT(c.O)
	b, err := x.Encode()
	if err != nil {
		return failf("Encode refuses a valid packet: %v", err)
	}
	y := egts.Package{}
	code, err := y.Decode(b)
	if err != nil || code != 0 {
		return failf("Decode of the encoded packet: code %d, error %v\nbytes %s", code, err, hx(b))
	}
	m, err := fromSUT(&y, false)
	if err != nil {
		return failf("decoded packet: %v\nbytes %s", err, hx(b))
	}
	if d := diffPkg(&c.P, &m, cmpOpt{Unit: 1}); d != "" {
		return failf("decoded packet differs: %s\nbytes %s", d, hx(b))
	}
	return nil
}

type SubCase struct {
	S MSub
	O convOpt
}

func genSubCase(o genOpt) func(t *rapid.T) SubCase {
	return func(t *rapid.T) SubCase {
		return SubCase{genSub(t, pick(t, allSubs, "SRT"), o.norm()), convOpt{Strip: gBool(t, "strip")}}
	}
}

func sectionTrip(r *Rec, c *SubCase) *Failure {
	r.Label("sub " + itoa(int(c.S.T)))
	r.NonTrivial()
	b, err := c.S.toSUT(c.O).Encode()
	if err != nil {
		return failf("Encode refuses a valid section %d: %v", c.S.T, err)
	}
	y := newSection(c.S.T)
	if err := y.Decode(b); err != nil {
		return failf("Decode of the encoded section %d: %v\nbytes %s", c.S.T, err, hx(b))
	}
	m, err := subModel(c.S.T, y)
	if err != nil {
		return failf("decoded section %d: %v\nbytes %s", c.S.T, err, hx(b))
	}
	if d := diffSub(&c.S, &m, cmpOpt{Unit: 1}); d != "" {
		return failf("decoded section %d differs: %s\nbytes %s", c.S.T, d, hx(b))
	}
	return nil
}

func recsetTrip(r *Rec, c *PktCase) *Failure {
	rs := c.P.recs()
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	set := recsToSUT(rs, c.O)
	b, err := set.Encode()
	if err != nil {
		return failf("ServiceDataSet.Encode: %v", err)
	}
	back := &egts.ServiceDataSet{}
	if err := back.Decode(b); err != nil {
		return failf("ServiceDataSet.Decode: %v\nbytes %s", err, hx(b))
	}
	m, err := recsModel(back)
	if err != nil {
		return failf("%v\nbytes %s", err, hx(b))
	}
	if d := diffRecs(rs, m, cmpOpt{Unit: 1}); d != "" {
		return failf("ServiceDataSet differs: %s\nbytes %s", d, hx(b))
	}
	for i := range *set {
		rds := (*set)[i].RecordDataSet
		b, err := rds.Encode()
		if err != nil {
			return failf("RecordDataSet.Encode: %v", err)
		}
		y := egts.RecordDataSet{}
		if err := y.Decode(b); err != nil {
			return failf("RecordDataSet.Decode: %v\nbytes %s", err, hx(b))
		}
		m, err := recsModel(&egts.ServiceDataSet{recWith(y)})
		if err != nil {
			return failf("%v\nbytes %s", err, hx(b))
		}
		want := []MRec{{Subs: rs[i].Subs}}
		if d := diffRecs(want, m, cmpOpt{Unit: 1}); d != "" {
			return failf("RecordDataSet differs: %s\nbytes %s", d, hx(b))
		}
	}
	if c.P.Resp != nil {
		x := c.P.toSUT(c.O).ServicesFrameData
		b, err := x.Encode()
		if err != nil {
			return failf("PtResponse.Encode: %v", err)
		}
		y := &egts.PtResponse{}
		if err := y.Decode(b); err != nil {
			return failf("PtResponse.Decode: %v\nbytes %s", err, hx(b))
		}
		w := &egts.Package{Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", ServicesFrameData: y}
		m, err := fromSUT(w, false)
		if err != nil {
			return failf("%v\nbytes %s", err, hx(b))
		}
		if d := diffPkg(&MPkg{Resp: c.P.Resp}, &m, cmpOpt{Unit: 1}); d != "" {
			return failf("PtResponse differs: %s\nbytes %s", d, hx(b))
		}
	}
	return nil
}

func recWith(d egts.RecordDataSet) egts.ServiceDataRecord {
	return egts.ServiceDataRecord{SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00",
		TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", RecordDataSet: d}
}

func recsModel(d *egts.ServiceDataSet) (m []MRec, err error) {
	w := &egts.Package{Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketType: 1, ServicesFrameData: d}
	p, err := fromSUT(w, false)
	return p.App, err
}

// ---- C02 ------------------------------------------------------------------------

func layoutEncode(r *Rec, c *PktCase) *Failure {
	labelPkg(r, &c.P)
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	b, err := c.P.toSUT(c.O).Encode()
	if err != nil {
		return failf("Encode refuses a valid packet: %v", err)
	}
	m, tail, err := refDecode(b)
	if err != nil || len(tail) > 0 {
		return failf("the encoded packet is not a standard one: %v, %d bytes left over\nbytes    %s\nstandard %s", err, len(tail), hx(b), hx(c.P.Bytes()))
	}
	if d := diffPkg(&c.P, &m, cmpOpt{Unit: 1}); d != "" {
		return failf("the encoded packet carries other values: %s\nbytes    %s\nstandard %s", d, hx(b), hx(c.P.Bytes()))
	}
	if w := m.Bytes(); !bytes.Equal(w, b) {
		return failf("encoded bytes differ from the standard layout\nbytes    %s\nstandard %s", hx(b), hx(w))
	}
	return nil
}

func layoutDecode(r *Rec, c *PktCase) *Failure {
	labelPkg(r, &c.P)
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	return decodeAgainst(c.P.Bytes(), &c.P)
}

func decodeAgainst(b []byte, want *MPkg) *Failure {
	y := egts.Package{}
	code, err := y.Decode(b)
	if err != nil || code != 0 {
		return failf("Decode refuses a standard packet: code %d, error %v\nbytes %s", code, err, hx(b))
	}
	m, err := fromSUT(&y, false)
	if err != nil {
		return failf("decoded packet: %v\nbytes %s", err, hx(b))
	}
	if d := diffPkg(want, &m, cmpOpt{WholeKmh: true}); d != "" {
		return failf("decoded values differ: %s\nbytes %s", d, hx(b))
	}
	// the length and checksum fields
	hl := 11
	if want.RTE {
		hl = 16
	}
	body := want.body()
	if int(y.HeaderLength) != hl || int(y.FrameDataLength) != len(body) || y.HeaderCheckSum != b[hl-1] ||
		(len(body) > 0 && y.ServicesFrameDataCheckSum != refCRC16(body)) {
		return failf("HL=%d FDL=%d HCS=%#x SFRCS=%#x do not match the bytes %s", y.HeaderLength, y.FrameDataLength, y.HeaderCheckSum, y.ServicesFrameDataCheckSum, hx(b))
	}
	var set *egts.ServiceDataSet
	switch d := y.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		set = d
	case *egts.PtResponse:
		if s, ok := d.SDR.(*egts.ServiceDataSet); ok {
			set = s
		}
	}
	if set != nil {
		for i, x := range *set {
			r := want.recs()[i]
			if int(x.RecordLength) != len(r.data()) {
				return failf("RL of record %d is %d, %d expected", i, x.RecordLength, len(r.data()))
			}
			for j, s := range x.RecordDataSet {
				if int(s.SubrecordLength) != len(r.Subs[j].Data()) {
					return failf("SRL of record %d subrecord %d is %d, %d expected", i, j, s.SubrecordLength, len(r.Subs[j].Data()))
				}
			}
		}
	}
	return nil
}

//go:embed corpus.csv
var corpusText string

var corpus = sync.OnceValue(func() [][]byte {
	var out [][]byte
	for _, l := range strings.Fields(corpusText) {
		if x, err := hex.DecodeString(strings.TrimSpace(l)); err == nil && len(x) > 10 {
			out = append(out, x)
		}
	}
	return out
})

type RowCase struct{ Row int }

func corpusRow(r *Rec, c *RowCase) *Failure {
	b := corpus()[c.Row]
	m, tail, err := refDecode(b)
	if err != nil || len(tail) > 0 {
		r.Label("not canonical")
		return nil
	}
	r.NonTrivial()
	labelPkg(r, &m)
	if f := decodeAgainst(b, &m); f != nil {
		return f
	}
	y := egts.Package{}
	_, _ = y.Decode(b)
	e, err := y.Encode()
	if err != nil {
		return failf("Encode of a decoded terminal packet: %v", err)
	}
	m2, tail, err := refDecode(e)
	if err != nil || len(tail) > 0 {
		return failf("re-encoded terminal packet is not a standard one: %v\nbytes %s", err, hx(e))
	}
	if d := diffPkg(&m, &m2, cmpOpt{Unit: 1, WholeKmh: true}); d != "" {
		return failf("re-encoded terminal packet differs: %s", d)
	}
	return nil
}

// ---- C06 -------------------------------------------------------------------------

type BytesCase struct{ B []byte }

func reencode(r *Rec, c *BytesCase) *Failure {
	x := egts.Package{}
	if _, err := x.Decode(c.B); err != nil {
		r.Label("refused")
		return nil
	}
	m1, err := fromSUT(&x, false)
	if err != nil {
		return failf("decoded packet: %v\nbytes %s", err, hx(c.B))
	}
	if m1.subCount() > 0 {
		r.NonTrivial()
	}
	orig, otail, lerr := refDecode(c.B)
	canonical := lerr == nil && len(otail) == 0
	r.LabelIf(!canonical, "accepted non-canonical")
	b, err := x.Encode()
	if err != nil {
		return failf("an accepted packet cannot be encoded: %v\nbytes %s", err, hx(c.B))
	}
	again, tail, err := refDecode(b)
	if err != nil && !isErr(err, errLoose) || len(tail) > 0 {
		return failf("re-encoded packet is invalid: %v, %d bytes left over\nbefore %s\nafter  %s", err, len(tail), hx(c.B), hx(b))
	}
	if canonical && err == nil {
		if d := diffPkg(&orig, &again, cmpOpt{Unit: 1, WholeKmh: true}); d != "" {
			return failf("values change between the packet and its re-encoding: %s\nbefore %s\nafter  %s", d, hx(c.B), hx(b))
		}
	}
	y := egts.Package{}
	if code, err := y.Decode(b); err != nil || code != 0 {
		return failf("re-encoded packet is refused: code %d, %v\nbefore %s\nafter  %s", code, err, hx(c.B), hx(b))
	}
	m2, err := fromSUT(&y, false)
	if err != nil {
		return failf("re-encoded packet: %v\nbefore %s\nafter  %s", err, hx(c.B), hx(b))
	}
	if d := diffPkg(&m1, &m2, cmpOpt{Unit: 1}); d != "" {
		return failf("values change on re-encoding: %s\nbefore %s\nafter  %s", d, hx(c.B), hx(b))
	}
	return nil
}

// ---- C07 --------------------------------------------------------------------------

type ConvCase struct {
	NTM, LAT, LONG uint32
	SPD            uint16
	DLat, DLon     float64
	Nsec           int
	Zone           int // seconds east of UTC
	N              int // consecutive values from each base
}

func genConv(t *rapid.T) ConvCase {
	return ConvCase{NTM: g32(t, "NTM"), LAT: g32(t, "LAT"), LONG: g32(t, "LONG"), SPD: uint16(gU(t, 0x3FFF, "SPD")),
		DLat: rapid.Float64Range(0, 90).Draw(t, "DLat"), DLon: rapid.Float64Range(0, 180).Draw(t, "DLon"),
		Nsec: gInt(t, 0, 999999999, "nsec"), Zone: gInt(t, -14*3600, 14*3600, "zone"), N: gInt(t, 1, 64, "n")}
}

func posOf(p *MPos) []byte { return (&MSub{T: 16, Pos: p}).Data() }

func conversions(r *Rec, c *ConvCase) *Failure {
	r.NonTrivial()
	prevLat, prevLon := -1.0, -1.0
	for i := 0; i < c.N; i++ {
		p := MPos{NTM: c.NTM + uint32(i), LAT: c.LAT, LONG: c.LONG, SPD: (c.SPD + uint16(i)) & 0x3FFF}
		if uint64(c.LAT)+uint64(i) <= math.MaxUint32 {
			p.LAT += uint32(i)
		} else {
			p.LAT = math.MaxUint32
		}
		if uint64(c.LONG)+uint64(i) <= math.MaxUint32 {
			p.LONG += uint32(i)
		} else {
			p.LONG = math.MaxUint32
		}
		x := &egts.SrPosData{}
		if err := x.Decode(posOf(&p)); err != nil {
			return failf("Decode: %v", err)
		}
		r.Sub(1)
		want := time.Unix(epoch2010.Unix()+int64(p.NTM), 0).UTC()
		if !x.NavigationTime.Equal(want) || x.NavigationTime.Format(time.RFC3339) != want.Format(time.RFC3339) {
			return failf("navigation time %d decodes to %v, %v expected", p.NTM, x.NavigationTime, want)
		}
		if wl := float64(p.LAT) / 0xFFFFFFFF * 90; math.Abs(x.Latitude-wl) > 1e-9 || x.Latitude < 0 || x.Latitude > 90 {
			return failf("latitude %d decodes to %v, %v expected", p.LAT, x.Latitude, wl)
		}
		if wl := float64(p.LONG) / 0xFFFFFFFF * 180; math.Abs(x.Longitude-wl) > 1e-9 || x.Longitude < 0 || x.Longitude > 180 {
			return failf("longitude %d decodes to %v, %v expected", p.LONG, x.Longitude, wl)
		}
		if i > 0 && (x.Latitude < prevLat || x.Longitude < prevLon) {
			return failf("coordinates are not monotonic at %d %d", p.LAT, p.LONG)
		}
		prevLat, prevLon = x.Latitude, x.Longitude
		if x.Speed != p.SPD/10 {
			return failf("speed %d decodes to %d km/h, %d expected", p.SPD, x.Speed, p.SPD/10)
		}
		b, err := x.Encode()
		if err != nil {
			return failf("Encode of decoded position: %v (%+v)", err, x)
		}
		q, err := refDecodeSub(16, b)
		if err != nil {
			return failf("encoded position: %v", err)
		}
		if q.Pos.NTM != p.NTM || absDiff(q.Pos.LAT, p.LAT) > 1 || absDiff(q.Pos.LONG, p.LONG) > 1 || q.Pos.SPD != p.SPD/10*10 {
			return failf("position NTM=%d LAT=%d LONG=%d SPD=%d encodes back to NTM=%d LAT=%d LONG=%d SPD=%d",
				p.NTM, p.LAT, p.LONG, p.SPD, q.Pos.NTM, q.Pos.LAT, q.Pos.LONG, q.Pos.SPD)
		}
	}
	// arbitrary degrees, and a time in any zone with a fraction
	x := &egts.SrPosData{NavigationTime: time.Unix(epoch2010.Unix()+int64(c.NTM), int64(c.Nsec)).In(time.FixedZone("", c.Zone)),
		Latitude: c.DLat, Longitude: c.DLon, ALTE: "0", LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "0", VLD: "0", Speed: c.SPD / 10}
	b, err := x.Encode()
	if err != nil {
		return failf("Encode of %v %v %v: %v", x.NavigationTime, c.DLat, c.DLon, err)
	}
	y := &egts.SrPosData{}
	if err := y.Decode(b); err != nil {
		return failf("Decode: %v", err)
	}
	if y.NavigationTime.Unix() != x.NavigationTime.Unix() {
		return failf("time %v comes back as %v", x.NavigationTime, y.NavigationTime)
	}
	unit := 90.0 / 0xFFFFFFFF
	if math.Abs(y.Latitude-c.DLat) > unit*1.001 || math.Abs(y.Longitude-c.DLon) > 2*unit*1.001 {
		return failf("degrees %v %v come back as %v %v", c.DLat, c.DLon, y.Latitude, y.Longitude)
	}
	return nil
}

// OutsideCase is a position with values outside the wire range: what the
// encoder accepts has to come back, everything else has to be refused.
type OutsideCase struct {
	P     MPos
	Sec   int64 // seconds since 2010
	Nsec  int64
	Zone  int
	Lat   string // as text: NaN and infinities have no JSON
	Lon   string
	Speed uint16
}

func genOutside(t *rapid.T) OutsideCase {
	c := OutsideCase{P: *genSub(t, 16, genOpt{Kmh: true}.norm()).Pos, Sec: int64(g32(t, "sec")), Nsec: int64(gInt(t, 0, 999999999, "nsec")),
		Zone: gInt(t, -14*3600, 14*3600, "zone"), Speed: uint16(gInt(t, 0, 1638, "speed"))}
	deg := func(max float64, in bool, name string) string {
		if in {
			return fmt.Sprint(rapid.Float64Range(0, max).Draw(t, name))
		}
		unit := max / 0xFFFFFFFF
		switch gInt(t, 0, 5, name+" kind") {
		case 0:
			return pick(t, []string{"NaN", "+Inf", "-Inf", "1e300", "-1e300", "-1e-300"}, name)
		case 1:
			return fmt.Sprint(-rapid.Float64Range(0, max).Draw(t, name))
		case 2: // a few units beyond the end
			return fmt.Sprint(max + unit*rapid.Float64Range(1.5, 1e6).Draw(t, name))
		case 3:
			return fmt.Sprint(-unit * rapid.Float64Range(1.5, 1e6).Draw(t, name))
		case 4: // whole turns
			return fmt.Sprint(rapid.Float64Range(0, max).Draw(t, name) + max*float64(pick(t, []int{-4, -2, -1, 1, 2, 3, 4, 1 << 20}, "turns")))
		}
		return fmt.Sprint(rapid.Float64Range(max+1, 1e7).Draw(t, name))
	}
	bad := gInt(t, 1, 15, "which")
	c.Lat, c.Lon = deg(90, bad&1 == 0, "lat"), deg(180, bad&2 == 0, "lon")
	if bad&4 != 0 {
		switch gInt(t, 0, 3, "time kind") {
		case 0:
			c.Sec = 1<<32 + int64(g32(t, "late"))
		case 1:
			c.Sec = -1 - int64(g32(t, "early"))
		case 2:
			c.Sec = int64(pick(t, []int{-1, 1 << 32, 1<<32 + 1, -2, -1262304000, -1262304001, 1 << 33, -1 << 33, -63397555200}, "edge"))
		case 3:
			c.Sec += int64(pick(t, []int{-30, -3, -2, -1, 1, 2, 3, 30}, "wraps")) << 32
		}
	}
	if bad&8 != 0 {
		c.Speed = uint16(pick(t, []int{1639, 1640, 3276, 3277, 6553, 6554, 8191, 8192, 13107, 16383, 16384, 32767, 32768, 65535, 1639 + gInt(t, 0, 65535-1639, "more")}, "speed"))
	}
	return c
}

func outside(r *Rec, c *OutsideCase) *Failure {
	r.NonTrivial()
	lat, _ := strconv.ParseFloat(c.Lat, 64)
	lon, _ := strconv.ParseFloat(c.Lon, 64)
	s := MSub{T: 16, Pos: &c.P}
	p := MPkg{PT: 1, App: []MRec{{Subs: []MSub{s}}}}
	x := (*p.toSUT(convOpt{}).ServicesFrameData.(*egts.ServiceDataSet))[0].RecordDataSet[0].SubrecordData.(*egts.SrPosData)
	x.NavigationTime = time.Unix(epoch2010.Unix()+c.Sec, c.Nsec).In(time.FixedZone("", c.Zone))
	x.Latitude, x.Longitude, x.Speed = lat, lon, c.Speed
	b, err := x.Encode()
	if err != nil {
		r.Label("refused")
		return nil
	}
	r.Label("written")
	y := &egts.SrPosData{}
	if err := y.Decode(b); err != nil {
		return failf("a position the encoder accepted cannot be read: %v\n%+v", err, x)
	}
	if y.NavigationTime.Unix() != x.NavigationTime.Unix() {
		return failf("time %v is written as %v instead of being refused", x.NavigationTime, y.NavigationTime)
	}
	unit := 90.0 / 0xFFFFFFFF
	if !(math.Abs(y.Latitude-lat) <= unit*1.001) || !(math.Abs(y.Longitude-lon) <= 2*unit*1.001) {
		return failf("degrees %v %v are written as %v %v instead of being refused", lat, lon, y.Latitude, y.Longitude)
	}
	if y.Speed != c.Speed {
		return failf("speed %d is written as %d instead of being refused", c.Speed, y.Speed)
	}
	return nil
}

// ---- C08 -------------------------------------------------------------------------

type StaleCase struct {
	P            MPkg
	O            convOpt
	HL, HCS      byte
	FDL, RL, SRL uint16
	SFRCS        uint16
}

func genStale(t *rapid.T) StaleCase {
	return StaleCase{P: genPkg(t, genOpt{Kmh: true, PT: -1}), O: convOpt{Strip: gBool(t, "strip"), ZeroType: gBool(t, "zt")},
		HL: g8(t, "HL"), HCS: g8(t, "HCS"), FDL: g16(t, "FDL"), RL: g16(t, "RL"), SRL: g16(t, "SRL"), SFRCS: g16(t, "SFRCS")}
}

func staleFields(r *Rec, c *StaleCase) *Failure {
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	x := c.P.toSUT(c.O)
	x.HeaderLength, x.HeaderCheckSum, x.FrameDataLength, x.ServicesFrameDataCheckSum = c.HL, c.HCS, c.FDL, c.SFRCS
	var set *egts.ServiceDataSet
	switch d := x.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		set = d
	case *egts.PtResponse:
		set, _ = d.SDR.(*egts.ServiceDataSet)
	}
	if set != nil {
		for i := range *set {
			(*set)[i].RecordLength = c.RL
			for j := range (*set)[i].RecordDataSet {
				(*set)[i].RecordDataSet[j].SubrecordLength = c.SRL
			}
		}
	}
	b, err := x.Encode()
	if err != nil {
		return failf("Encode: %v", err)
	}
	m, tail, err := refDecode(b)
	if err != nil || len(tail) > 0 {
		return failf("lengths or checksums do not match the bytes: %v, %d bytes left over\nbytes    %s\nstandard %s", err, len(tail), hx(b), hx(c.P.Bytes()))
	}
	if d := diffPkg(&c.P, &m, cmpOpt{Unit: 1}); d != "" {
		return failf("%s\nbytes %s", d, hx(b))
	}
	return lengths(x, set)
}

// ownKind is a section of an application's own: it has no subrecord type.
type ownKind struct{ B []byte }

func (f *ownKind) Decode(b []byte) error   { f.B = append([]byte{}, b...); return nil }
func (f *ownKind) Encode() ([]byte, error) { return f.B, nil }
func (f *ownKind) Length() uint16          { return uint16(len(f.B)) }

type KindCase struct {
	P    MPkg
	O    convOpt
	Rec  int
	Sub  int
	Kind int // 0 a type of the application, 1 a record set, 2 a whole SFRD, 3 a response body, 4 the same type with its number given
	B    []byte
}

func genKind(t *rapid.T) KindCase {
	c := KindCase{P: genPkg(t, genOpt{Kmh: true, MaxRecs: 3, MaxSubs: 3, MaxStr: 12, PT: 1}), O: convOpt{ZeroType: gBool(t, "zero type")},
		Kind: gInt(t, 0, 4, "kind"), B: gBytes(t, 0, 30, "b", false)}
	if len(c.P.App) == 0 {
		c.P.App = []MRec{genRecHead(t)}
	}
	c.Rec = gInt(t, 0, len(c.P.App)-1, "rec")
	c.Sub = gInt(t, 0, len(c.P.App[c.Rec].Subs), "sub")
	return c
}

func kindless(r *Rec, c *KindCase) *Failure {
	r.NonTrivial()
	x := c.P.toSUT(c.O)
	rds := &(*x.ServicesFrameData.(*egts.ServiceDataSet))[c.Rec].RecordDataSet
	rd := egts.RecordData{}
	switch c.Kind {
	case 0, 4:
		rd.SubrecordData = &ownKind{c.B}
	case 1:
		rd.SubrecordData = &egts.RecordDataSet{}
	case 2:
		rd.SubrecordData = &egts.ServiceDataSet{}
	case 3:
		rd.SubrecordData = &egts.PtResponse{}
	}
	if c.Kind == 4 {
		rd.SubrecordType = 200
	}
	*rds = append((*rds)[:c.Sub:c.Sub], append(egts.RecordDataSet{rd}, (*rds)[c.Sub:]...)...)
	b, err := x.Encode()
	if c.Kind == 4 {
		// the application says what it is: written under that number, or refused
		if err != nil {
			r.Label("refused")
			return nil
		}
		r.Label("written")
		if !bytes.Contains(b, append([]byte{200, byte(len(c.B)), byte(len(c.B) >> 8)}, c.B...)) {
			return failf("a subrecord of type 200 with the bytes %s is not in the packet %s", hx(c.B), hx(b))
		}
		if len(b) < 13 || refCRC8(b[:b[3]-1]) != b[b[3]-1] || refCRC16(b[b[3]:len(b)-2]) != uint16(b[len(b)-2])|uint16(b[len(b)-1])<<8 {
			return failf("checksums do not match the bytes: %s", hx(b))
		}
		return nil
	}
	if err == nil {
		return failf("a %T without a subrecord type is encoded as %s", rd.SubrecordData, hx(b))
	}
	return nil
}

type lengther interface {
	Encode() ([]byte, error)
	Length() uint16
}

func lenOK(what string, d lengther) *Failure {
	b, err := d.Encode()
	if err != nil {
		return failf("%s.Encode: %v", what, err)
	}
	if n := d.Length(); int(n) != len(b) {
		return failf("%s.Length() = %d, Encode gives %d bytes", what, n, len(b))
	}
	return nil
}

func lengths(x *egts.Package, set *egts.ServiceDataSet) *Failure {
	if x.ServicesFrameData != nil {
		if f := lenOK("SFRD", x.ServicesFrameData); f != nil {
			return f
		}
	}
	if set == nil {
		return nil
	}
	if f := lenOK("ServiceDataSet", set); f != nil {
		return f
	}
	for i := range *set {
		rds := &(*set)[i].RecordDataSet
		if f := lenOK("RecordDataSet", rds); f != nil {
			return f
		}
		for j := range *rds {
			if f := lenOK(reflect.TypeOf((*rds)[j].SubrecordData).String(), (*rds)[j].SubrecordData); f != nil {
				return f
			}
		}
	}
	return nil
}

type SizeCase struct {
	Kind string // sub, auth, plus, rec, recs, resp
	N    int    // target size of the limited thing
	RTE  bool
}

func genSize(t *rapid.T) SizeCase {
	n := 65535 + gInt(t, -40, 40, "off")
	switch gInt(t, 0, 5, "far") {
	case 0:
		n = gInt(t, 60000, 70000, "n")
	case 1:
		n = 65536*gInt(t, 1, 3, "k") + gInt(t, 0, 300, "n")
	}
	return SizeCase{pick(t, []string{"sub", "auth", "plus", "rec", "recs", "resp"}, "kind"), n, gBool(t, "rte")}
}

// sizeModel builds a packet whose limited part has about c.N bytes.
func sizeModel(c *SizeCase) MPkg {
	p := MPkg{PRV: 1, PT: 1, RTE: c.RTE, PID: 77}
	disp := func(n int) MSub { // subrecord of n data bytes
		return MSub{T: 5, Disp: &MDisp{DID: 9, DSCR: bytes.Repeat([]byte{'x'}, n-5)}}
	}
	switch c.Kind {
	case "sub":
		p.App = []MRec{{RN: 1, Subs: []MSub{disp(c.N)}}}
	case "auth":
		p.App = []MRec{{RN: 1, Subs: []MSub{{T: 7, Auth: &MAuth{UNM: bytes.Repeat([]byte{'u'}, c.N/2), UPSW: bytes.Repeat([]byte{'p'}, c.N-c.N/2-2)}}}}}
	case "plus":
		v := PMsg{{N: 1, U: 5}, {N: 2, U: 6}, {N: 4, U: 7}, {N: 20, M: PMsg{{N: 2, B: bytes.Repeat([]byte{'b'}, c.N-32)}}}}
		d := plusEncode(plusSchema, v)
		v[3].M[0].B = bytes.Repeat([]byte{'b'}, c.N-32+c.N-len(d))
		p.App = []MRec{{RN: 1, Subs: []MSub{{T: 15, Plus: plusEncode(plusSchema, v)}}}}
	case "rec": // record data of N bytes
		p.App = []MRec{{RN: 1, Subs: fill(c.N, disp)}}
	default: // frame data of N bytes in two or more records
		left := c.N
		if c.Kind == "resp" {
			left -= 3
		}
		var rs []MRec
		for left > 0 {
			n := 20000
			if left < 2*n {
				n = left
			}
			rs = append(rs, MRec{RN: uint16(len(rs)), Subs: fill(n-7, disp)})
			left -= n
		}
		if c.Kind == "resp" {
			p.PT, p.Resp = 0, &MResp{RPID: 3, SDR: rs}
		} else {
			p.App = rs
		}
	}
	return p
}

func fill(n int, disp func(int) MSub) []MSub {
	var out []MSub
	for n > 0 {
		k := 5000
		if n < 2*k {
			k = n
		}
		out = append(out, disp(k-3))
		n -= k
	}
	return out
}

func oversize(r *Rec, c *SizeCase) *Failure {
	p := sizeModel(c)
	fits := len(p.body()) <= 65535
	for _, x := range p.recs() {
		fits = fits && len(x.data()) <= 65535
		for i := range x.Subs {
			fits = fits && len(x.Subs[i].Data()) <= 65535
		}
	}
	r.NonTrivial()
	r.LabelIf(fits, c.Kind+" fits")
	r.LabelIf(!fits, c.Kind+" too long")
	x := p.toSUT(convOpt{})
	b, err := x.Encode()
	if fits {
		if err != nil {
			return failf("%s of %d bytes fits but is refused: %v", c.Kind, c.N, err)
		}
		m, tail, err := refDecode(b)
		if err != nil || len(tail) > 0 {
			return failf("%s of %d bytes encodes to an invalid packet: %v", c.Kind, c.N, err)
		}
		if d := diffPkg(&p, &m, cmpOpt{}); d != "" {
			return failf("%s of %d bytes: %s", c.Kind, c.N, head(d, 1))
		}
		return lengths(x, nil)
	}
	if err == nil {
		return failf("%s of %d bytes does not fit 16-bit lengths but encodes to %d bytes without an error", c.Kind, c.N, len(b))
	}
	return nil
}

// ---- C10 -------------------------------------------------------------------------

type PureCase struct {
	Ps    []PktCase
	Order []int
	Conc  bool
	Rep   []int `json:",omitempty"` // how often the records of each packet are repeated (as far as they fit)
}

// swell repeats the records of the packets that Rep names.
func (c *PureCase) swell() {
	for i, n := range c.Rep {
		p := &c.Ps[i].P
		rs := &p.App
		size := 0
		if p.PT == 0 && p.Resp != nil {
			rs, size = &p.Resp.SDR, 3
		}
		one := 0
		for k := range *rs {
			one += len((*rs)[k].Bytes())
		}
		if one == 0 {
			continue
		}
		if max := (65535 - size) / one; n > max {
			n = max
		}
		var all []MRec
		for k := 0; k < n; k++ {
			all = append(all, *rs...)
			for j := range *rs {
				all[len(all)-1-j].RN += uint16(k)
			}
		}
		*rs = all
	}
	c.Rep = nil
}

func genPureLarge(t *rapid.T) PureCase {
	c := genPure(t)
	for range c.Ps {
		c.Rep = append(c.Rep, pick(t, []int{1, 5, 20, 60, 260, 1100, 5000}, "rep"))
	}
	if len(c.Order) > 4 {
		c.Order = c.Order[:4]
	}
	return c
}

func genPure(t *rapid.T) PureCase {
	n := gInt(t, 2, 5, "n")
	c := PureCase{Conc: chance(t, 3, "conc")}
	g := genPktCase(genOpt{Kmh: true, PT: -1, MaxRecs: 3, MaxSubs: 3})
	for i := 0; i < n; i++ {
		c.Ps = append(c.Ps, g(t))
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 3, 10).Draw(t, "order")
	return c
}

func purity(r *Rec, c *PureCase) *Failure {
	subs := 0
	n := len(c.Ps)
	if len(c.Rep) > 0 {
		var d PureCase
		mustCopy(c, &d)
		c = &d
		c.swell()
	}
	want := make([][]byte, n)
	kept := make([][]byte, n)
	pk := make([]*egts.Package, n)
	for i := range c.Ps {
		subs += c.Ps[i].P.subCount()
		pk[i] = c.Ps[i].P.toSUT(c.Ps[i].O)
		b, err := pk[i].Encode()
		if err != nil {
			return failf("Encode: %v", err)
		}
		want[i], kept[i] = append([]byte{}, b...), b
	}
	if subs > 1 {
		r.NonTrivial()
	}
	for i := range kept {
		if !bytes.Equal(kept[i], want[i]) {
			return failf("the bytes of packet %d change while other packets are encoded\nbefore %s\nafter  %s", i, hx(want[i]), hx(kept[i]))
		}
	}
	// packets that are decoded one after another and looked at together
	read := make([]egts.Package, n)
	for i := range read {
		if code, err := read[i].Decode(kept[i]); err != nil || code != 0 {
			return failf("Decode of packet %d: %d %v", i, code, err)
		}
	}
	for i := range read {
		m, err := fromSUT(&read[i], false)
		if err != nil {
			return failf("packet %d, decoded before %d others: %v", i, n-1-i, err)
		}
		if d := diffPkg(&c.Ps[i].P, &m, cmpOpt{Unit: 1}); d != "" {
			return failf("packet %d, decoded before %d others: %s", i, n-1-i, d)
		}
	}
	one := func(i int, used *egts.Package) *Failure {
		b, err := pk[i].Encode()
		if err != nil {
			return failf("second Encode: %v", err)
		}
		if !bytes.Equal(b, want[i]) {
			return failf("encoding packet %d again gives other bytes\nfirst  %s\nsecond %s", i, hx(want[i]), hx(b))
		}
		in := append([]byte{}, want[i]...)
		y := egts.Package{}
		if code, err := y.Decode(in); err != nil || code != 0 {
			return failf("Decode of packet %d: %d %v", i, code, err)
		}
		if !bytes.Equal(in, want[i]) {
			return failf("Decode modified its input\nbefore %s\nafter  %s", hx(want[i]), hx(in))
		}
		m1, err := fromSUT(&y, false)
		if err != nil {
			return failf("%v", err)
		}
		if d := diffPkg(&c.Ps[i].P, &m1, cmpOpt{Unit: 1}); d != "" {
			return failf("packet %d of a sequence decodes differently: %s", i, d)
		}
		// overwrite everything that went in and came out
		for k := range in {
			in[k] ^= 0xA5
		}
		for k := range b {
			b[k] ^= 0x5A
		}
		m2, err := fromSUT(&y, false)
		if err != nil {
			return failf("decoded packet changed with its input buffer: %v", err)
		}
		if d := diffPkg(&m1, &m2, cmpOpt{}); d != "" {
			return failf("decoded packet %d changed with its input buffer: %s", i, d)
		}
		e, err := y.Encode()
		if err != nil {
			return failf("Encode of the decoded packet: %v", err)
		}
		e2, err := y.Encode()
		if err != nil || !bytes.Equal(e, e2) {
			return failf("encoding a decoded packet twice gives different bytes\nfirst  %s\nsecond %s", hx(e), hx(e2))
		}
		// a variable that has held other packets, or what could be read of a damaged one
		if i%2 == 1 {
			k := len(want[i]) * (i + 1) / 7
			_, _ = used.Decode(append([]byte{}, want[i][:k%len(want[i])]...))
		}
		if code, err := used.Decode(append([]byte{}, want[i]...)); err != nil || code != 0 {
			return failf("Decode of packet %d into a used variable: %d %v", i, code, err)
		}
		if u, err := used.Encode(); err != nil || !bytes.Equal(u, e) {
			return failf("packet %d decoded into a used variable is another packet (%v)\nfresh %s\nused  %s", i, err, hx(e), hx(u))
		}
		return nil
	}
	if !c.Conc {
		var used egts.Package
		for _, i := range c.Order {
			if f := one(i, &used); f != nil {
				return f
			}
		}
		return nil
	}
	r.Label("concurrent")
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fail *Failure
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					fail = failf("panic in concurrent use: %v", e)
					mu.Unlock()
				}
			}()
			var used egts.Package
			for k := 0; k < 20 && k < 1<<20/(len(want[g])+1)+2; k++ {
				if f := one(g, &used); f != nil {
					mu.Lock()
					fail = f
					mu.Unlock()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	return fail
}

// ColdCase: the packets are the first thing a fresh process handles, and it
// handles them in several goroutines at once.
type ColdCase struct {
	Ps  []PktCase
	G   int
	Rot bool // each goroutine starts with another packet
}

func genCold(t *rapid.T) ColdCase {
	c := ColdCase{G: gInt(t, 6, 24, "goroutines"), Rot: gBool(t, "rot")}
	g := genPktCase(genOpt{Kmh: true, PT: -1, MaxRecs: 5, MaxSubs: 8})
	for i, n := 0, gInt(t, 6, 20, "n"); i < n; i++ {
		c.Ps = append(c.Ps, g(t))
	}
	return c
}

// coldStart runs the case in a process of its own.
func coldStart(r *Rec, c *ColdCase) *Failure {
	r.NonTrivial()
	r.Sub(len(c.Ps) * c.G)
	for i := range c.Ps {
		r.LabelIf(c.Ps[i].P.subCount() > 8, "packet with over 8 subrecords")
	}
	js, err := json.Marshal(c)
	if err != nil {
		panic(harnessPanic{err, ""})
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "cold", "C10")
	cmd.Stdin = bytes.NewReader(js)
	out := &lockedBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		r.Inconclusive("no process")
		return nil
	}
	hung := false
	k := time.AfterFunc(25*time.Second, func() { hung = true; cmd.Process.Kill() })
	err = cmd.Wait()
	k.Stop()
	if hung {
		return softf("a fresh process that handles %d packets in %d goroutines does not finish", len(c.Ps), c.G)
	}
	if err == nil {
		return nil
	}
	o := out.String()
	if strings.HasPrefix(o, "COLD: ") {
		return failf("in a fresh process with %d goroutines: %s", c.G, strings.TrimPrefix(o, "COLD: "))
	}
	if crashInSUT(o) || strings.Contains(o, sutPath) && strings.Contains(o, "fatal error: ") {
		return failf("a fresh process that handles packets in %d goroutines at once was brought down:\n%s", c.G, head(o, 30))
	}
	panic(harnessPanic{fmt.Errorf("cold: %v: %s", err, head(o, 30)), ""})
}

// coldMain is that process.
func coldMain() int {
	var c ColdCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	// the bytes come from the independent encoder: the library has done nothing yet
	in := make([][]byte, len(c.Ps))
	for i := range c.Ps {
		in[i] = c.Ps[i].P.Bytes()
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	fails := make([]string, c.G)
	for g := 0; g < c.G; g++ {
		pk := make([]*egts.Package, len(c.Ps)) // as built by the caller
		for i := range c.Ps {
			pk[i] = c.Ps[i].P.toSUT(c.Ps[i].O)
		}
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ready.Add(1)
			for int(ready.Load()) < c.G {
				runtime.Gosched()
			}
			for k := range c.Ps {
				i := k
				if c.Rot {
					i = (k + g*len(c.Ps)/c.G) % len(c.Ps)
				}
				if g%2 == 1 {
					b, err := pk[i].Encode()
					if err != nil {
						fails[g] = fmt.Sprintf("Encode of packet %d: %v", i, err)
						return
					}
					m, _, err := refDecode(b)
					if err != nil {
						fails[g] = fmt.Sprintf("packet %d is encoded as %s: %v", i, hx(b), err)
						return
					}
					if d := diffPkg(&c.Ps[i].P, &m, cmpOpt{Unit: 1}); d != "" {
						fails[g] = fmt.Sprintf("packet %d is encoded differently: %s", i, d)
						return
					}
				}
				b := append([]byte{}, in[i]...)
				y := egts.Package{}
				if code, err := y.Decode(b); err != nil || code != 0 {
					fails[g] = fmt.Sprintf("Decode of packet %d: %d %v", i, code, err)
					return
				}
				m, err := fromSUT(&y, false)
				if err != nil {
					fails[g] = err.Error()
					return
				}
				if d := diffPkg(&c.Ps[i].P, &m, cmpOpt{Unit: 1}); d != "" {
					fails[g] = fmt.Sprintf("packet %d decodes differently: %s", i, d)
					return
				}
			}
		}(g)
	}
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			fmt.Println("COLD: " + f)
			return 1
		}
	}
	return 0
}

// PureSub: one section, record set and response decoded from a buffer that is reused afterwards.
type PureSub struct {
	P PktCase
	V byte
}

func purityParts(r *Rec, c *PureSub) *Failure {
	if c.P.P.subCount() > 0 {
		r.NonTrivial()
	}
	type dec interface {
		Decode([]byte) error
		Encode() ([]byte, error)
		Length() uint16
	}
	one := func(what string, enc []byte, fresh func() dec, model func(dec) (MPkg, error)) *Failure {
		r.Sub(1)
		buf := make([]byte, len(enc)+16) // the section is a window of a larger buffer
		for i := range buf {
			buf[i] = c.V
		}
		copy(buf[8:], enc)
		in := buf[8 : 8+len(enc)]
		x := fresh()
		if err := x.Decode(in); err != nil {
			return failf("%s: Decode of its own encoding: %v\nbytes %s", what, err, hx(enc))
		}
		for i := range buf {
			if i < 8 || i >= 8+len(enc) {
				if buf[i] != c.V {
					return failf("%s: Decode wrote outside its input", what)
				}
			}
		}
		if !bytes.Equal(in, enc) {
			return failf("%s: Decode modified its input\nbefore %s\nafter  %s", what, hx(enc), hx(in))
		}
		m1, err := model(x)
		if err != nil {
			return failf("%s: %v", what, err)
		}
		b1, err := x.Encode()
		if err != nil {
			return failf("%s: Encode of the decoded value: %v", what, err)
		}
		b1 = append([]byte{}, b1...)
		for i := range buf {
			buf[i] ^= 0xFF
		}
		m2, err := model(x)
		if err != nil {
			return failf("%s: the decoded value changed with its input buffer: %v", what, err)
		}
		if d := diffPkg(&m1, &m2, cmpOpt{}); d != "" {
			return failf("%s: the decoded value changed with its input buffer: %s\nbytes %s", what, d, hx(enc))
		}
		b2, err := x.Encode()
		if err != nil || !bytes.Equal(b1, b2) {
			return failf("%s: encoding after the input buffer was reused differs (%v)\nfirst  %s\nsecond %s", what, err, hx(b1), hx(b2))
		}
		// what Encode returned belongs to the caller
		for i := range b2 {
			b2[i] ^= 0xFF
		}
		b3, err := x.Encode()
		if err != nil || !bytes.Equal(b1, b3) {
			return failf("%s: overwriting the encoded bytes changes the next encoding (%v)\nfirst  %s\nsecond %s", what, err, hx(b1), hx(b3))
		}
		return nil
	}
	wrap := func(rs egts.ServiceDataSet) (MPkg, error) {
		ms, err := recsModel(&rs)
		return MPkg{PT: 1, App: ms}, err
	}
	for _, m := range c.P.P.recs() {
		for _, s := range m.Subs {
			s := s
			b, err := s.toSUT(c.P.O).Encode()
			if err != nil {
				return failf("section %d: Encode: %v", s.T, err)
			}
			f := one("section "+itoa(int(s.T)), b, func() dec { return newSection(s.T) }, func(x dec) (MPkg, error) {
				ms, err := subModel(s.T, x.(egts.BinaryData))
				return MPkg{PT: 1, App: []MRec{{Subs: []MSub{ms}}}}, err
			})
			if f != nil {
				return f
			}
		}
	}
	set := recsToSUT(c.P.P.recs(), c.P.O)
	for i := range *set {
		b, err := (*set)[i].RecordDataSet.Encode()
		if err != nil {
			return failf("RecordDataSet.Encode: %v", err)
		}
		f := one("RecordDataSet", b, func() dec { return &egts.RecordDataSet{} }, func(x dec) (MPkg, error) {
			return wrap(egts.ServiceDataSet{recWith(*x.(*egts.RecordDataSet))})
		})
		if f != nil {
			return f
		}
	}
	b, err := set.Encode()
	if err != nil {
		return failf("ServiceDataSet.Encode: %v", err)
	}
	if f := one("ServiceDataSet", b, func() dec { return &egts.ServiceDataSet{} }, func(x dec) (MPkg, error) { return wrap(*x.(*egts.ServiceDataSet)) }); f != nil {
		return f
	}
	if c.P.P.Resp == nil {
		return nil
	}
	b, err = c.P.P.toSUT(c.P.O).ServicesFrameData.Encode()
	if err != nil {
		return failf("PtResponse.Encode: %v", err)
	}
	return one("PtResponse", b, func() dec { return &egts.PtResponse{} }, func(x dec) (MPkg, error) {
		return fromSUT(&egts.Package{Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", ServicesFrameData: x.(*egts.PtResponse)}, false)
	})
}

func init() {
	register(&Check{ID: "C01", Parts: []*Part{
		part("packet", "the packet has at least one subrecord", 10000, 60000, genPktCase(genOpt{Kmh: true, PT: -1, AnyPRV: true}), roundTrip),
		part("section", "every section counts", 16000, 100000, genSubCase(genOpt{Kmh: true, MaxStr: 300}), sectionTrip),
		part("recordset", "at least one subrecord", 4800, 30000, genPktCase(genOpt{Kmh: true, PT: -1}), recsetTrip),
		part("big", "at least one subrecord", 240, 1500, genBig(true), roundTrip),
		part("most", "more than one record or subrecord in the packet", 40, 1000, genMost(true), most(roundTrip)),
	}, Fuzz: []Fuzz{{"FuzzCases", "packet", 0, 120 * time.Second}, {"FuzzCases", "section", 0, 60 * time.Second}}})
	register(&Check{ID: "C02", Parts: []*Part{
		part("encode", "the packet has at least one subrecord", 10000, 60000, genPktCase(genOpt{Kmh: true, PT: -1, AnyPRV: true}), layoutEncode),
		part("decode", "the packet has at least one subrecord", 12000, 80000, genPktCase(genOpt{PT: -1, AnyPRV: true}), layoutDecode),
		part("terminals", "the recorded packet is canonical", 200, 400, func(t *rapid.T) RowCase { return RowCase{gInt(t, 0, len(corpus())-1, "row")} }, corpusRow),
		part("big", "at least one subrecord", 240, 1500, genBig(true), layoutEncode),
		part("most", "more than one record or subrecord in the packet", 40, 1000, genMost(true), most(layoutEncode)),
		part("most-decode", "more than one record or subrecord in the packet", 40, 1000, genMost(false), most(layoutDecode)),
	}, Fuzz: []Fuzz{{"FuzzCases", "encode", 0, 120 * time.Second}, {"FuzzCases", "decode", 0, 120 * time.Second}}})
	register(&Check{ID: "C06", Parts: []*Part{
		part("mutated", "the decoder accepts the bytes and they hold at least one subrecord", 30000, 150000, genMutated, reencode),
		part("valid", "at least one subrecord", 9000, 40000, func(t *rapid.T) BytesCase {
			p := genPkg(t, genOpt{PT: -1})
			return BytesCase{p.Bytes()}
		}, reencode),
		part("most", "more than one record or subrecord in the packet", 40, 600, genMost(false), most(func(r *Rec, c *PktCase) *Failure {
			return reencode(r, &BytesCase{c.P.Bytes()})
		})),
	}, Fuzz: []Fuzz{{"FuzzBytes", "mutated", 12 * time.Second, 200 * time.Second}}})
	register(&Check{ID: "C07", Parts: []*Part{
		part("conversions", "every block of values counts", 9000, 200000, genConv, conversions),
		part("speeds", "every block of values counts", 120, 400, func(t *rapid.T) ConvCase {
			return ConvCase{SPD: uint16(gInt(t, 0, 0x3FFF, "SPD")), NTM: g32(t, "NTM"), N: 0x4000}
		}, conversions),
		part("outside", "every case: at least one value lies outside its wire range", 9000, 100000, genOutside, outside),
	}})
	register(&Check{ID: "C08", Parts: []*Part{
		part("stale", "the packet has at least one subrecord", 12000, 50000, genStale, staleFields),
		part("size", "every size near a 16-bit limit counts", 360, 1500, genSize, oversize),
		part("foreign", "every case: a subrecord of a kind without a type of its own", 1500, 20000, genKind, kindless),
	}, Fuzz: []Fuzz{{"FuzzCases", "stale", 0, 90 * time.Second}}})
	register(&Check{ID: "C10", Parts: []*Part{
		part("sequence", "more than one subrecord in the sequence", 2700, 25000, genPure, purity),
		part("large", "more than one subrecord in the sequence", 40, 1500, genPureLarge, purity),
		part("cold", "every case: a fresh process", 120, 1500, genCold, coldStart),
		part("buffers", "at least one subrecord", 4500, 40000, func(t *rapid.T) PureSub {
			return PureSub{genPktCase(genOpt{Kmh: true, PT: -1, MaxRecs: 2, MaxSubs: 3})(t), g8(t, "V")}
		}, purityParts),
	}, Fuzz: []Fuzz{{"FuzzCases", "sequence", 0, 90 * time.Second}}})
}
