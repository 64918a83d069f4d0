package main

// Generators of packets in the reference model.

import (
	"bytes"
	"encoding/json"
	"math"

	"pgregory.net/rapid"
)

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func gU(t *rapid.T, max uint64, name string) uint64 {
	if vs := fits(true, 0, max); len(vs) > 0 && chance(t, 6, name+"new") {
		return vs[rapid.IntRange(0, len(vs)-1).Draw(t, name+"const")]
	}
	if vs := fits(false, 0, max); len(vs) > 0 && chance(t, 24, name+"old") {
		return vs[rapid.IntRange(0, len(vs)-1).Draw(t, name+"const")]
	}
	switch rapid.IntRange(0, 9).Draw(t, name+"?") {
	case 0:
		return max
	case 1: // around a power of two
		v := uint64(1)<<rapid.IntRange(0, bitLen(max)-1).Draw(t, name) + rapid.Uint64Range(0, 2).Draw(t, name+"d") - 1
		return v % (max + 1)
	case 2: // just below the top, or around a round decimal number
		if rapid.Bool().Draw(t, name+"top") {
			return max - rapid.Uint64Range(0, 3).Draw(t, name)%(max+1)
		}
		v := uint64(1)
		for i := rapid.IntRange(0, 9).Draw(t, name+"e"); i > 0; i-- {
			v *= 10
		}
		return (v*rapid.Uint64Range(1, 9).Draw(t, name) + rapid.Uint64Range(0, 2).Draw(t, name+"d") - 1) % (max + 1)
	default:
		return rapid.Uint64Range(0, max).Draw(t, name)
	}
}
func bitLen(v uint64) int {
	n := 0
	for ; v > 0; v >>= 1 {
		n++
	}
	return n
}
func g8(t *rapid.T, n string) byte               { return byte(gU(t, 255, n)) }
func g16(t *rapid.T, n string) uint16            { return uint16(gU(t, 65535, n)) }
func g24(t *rapid.T, n string) uint32            { return uint32(gU(t, 0xFFFFFF, n)) }
func g32(t *rapid.T, n string) uint32            { return uint32(gU(t, math.MaxUint32, n)) }
func gBit(t *rapid.T, n string) byte             { return byte(rapid.IntRange(0, 1).Draw(t, n)) }
func gBool(t *rapid.T, n string) bool            { return rapid.Bool().Draw(t, n) }
func pick[T any](t *rapid.T, xs []T, n string) T { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, n)] }
func chance(t *rapid.T, outOf int, n string) bool {
	return rapid.IntRange(0, outOf-1).Draw(t, n) == outOf-1
}

// gInt draws a count, a size or a choice. Constants that are new in the code
// under test are tried where they fit.
func gInt(t *rapid.T, lo, hi int, n string) int {
	if lo >= 0 && hi-lo >= 8 {
		if vs := fits(true, uint64(lo), uint64(hi)); len(vs) > 0 && chance(t, 6, n+"new") {
			return int(vs[rapid.IntRange(0, len(vs)-1).Draw(t, n+"const")])
		}
	}
	return rapid.IntRange(lo, hi).Draw(t, n)
}

func o32(t *rapid.T, n string) *uint32 {
	if !gBool(t, n+"E") {
		return nil
	}
	v := g32(t, n)
	return &v
}
func o24(t *rapid.T, n string) *uint32 {
	if !gBool(t, n+"E") {
		return nil
	}
	v := g24(t, n)
	return &v
}
func o16(t *rapid.T, n string) *uint16 {
	if !gBool(t, n+"E") {
		return nil
	}
	v := g16(t, n)
	return &v
}
func o8(t *rapid.T, n string) *byte {
	if !gBool(t, n+"E") {
		return nil
	}
	v := g8(t, n)
	return &v
}

// gBytes draws a byte string; text strings have no zero bytes.
func gBytes(t *rapid.T, lo, hi int, n string, text bool) []byte {
	g := rapid.Byte()
	if text {
		g = rapid.OneOf(rapid.ByteRange('0', '9'), rapid.ByteRange(' ', '~'), rapid.ByteRange(1, 255))
	}
	if ts := dict().texts; len(ts) > 0 && chance(t, 10, n+"new") {
		if w := pick(t, ts, n+"word"); len(w) >= lo && len(w) <= hi && (!text || bytes.IndexByte(w, 0) < 0) {
			return bytes.Clone(w)
		}
	}
	l := gInt(t, lo, hi, n+"#")
	if l > 64 { // long ones repeat a short pattern
		p := rapid.SliceOfN(g, 1, 7).Draw(t, n)
		b := make([]byte, l)
		for i := range b {
			b[i] = p[i%len(p)]
		}
		return b
	}
	b := rapid.SliceOfN(g, l, l).Draw(t, n)
	if b == nil {
		b = []byte{}
	}
	if l > 0 && chance(t, 4, n+"edge") { // bytes a careless reader trims or stops at
		odd := []byte{' ', '\t', '\n', '\r', ';', '0', 0xFF, 0x80}
		if !text {
			odd = append(odd, 0, 0, 0, 0)
		}
		v := pick(t, odd, n+"odd")
		switch gInt(t, 0, 2, n+"where") {
		case 0:
			b[0] = v
		case 1:
			for i := gInt(t, 1, min(l, 3), n+"run"); i > 0; i-- {
				b[l-i] = v
			}
		default:
			b[gInt(t, 0, l-1, n+"at")] = v
		}
	}
	return b
}

// gFixed draws a fixed-length string, zero padded.
func gFixed(t *rapid.T, size int, n string) []byte {
	if !gBool(t, n+"E") {
		return nil
	}
	b := gBytes(t, 0, size, n, true)
	if chance(t, 2, n+"full") {
		b = gBytes(t, size, size, n, true)
	}
	for len(b) < size {
		b = append(b, 0)
	}
	return b
}

var allSubs = []byte{0, 1, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27}

type genOpt struct {
	Subs    []byte // subrecord types to draw from (nil: all)
	MaxRecs int
	MaxSubs int
	Kmh     bool // speed in whole km/h
	MaxStr  int
	AnyPRV  bool
	PT      int // -1: both
}

func (o genOpt) norm() genOpt {
	if o.Subs == nil {
		o.Subs = allSubs
	}
	if o.MaxRecs == 0 {
		o.MaxRecs = 4
	}
	if o.MaxSubs == 0 {
		o.MaxSubs = 4
	}
	if o.MaxStr == 0 {
		o.MaxStr = 40
	}
	return o
}

func genPkg(t *rapid.T, o genOpt) MPkg {
	o = o.norm()
	p := genHeader(t, o)
	if p.PT == 1 {
		p.App = genRecs(t, o, 0)
	} else {
		p.Resp = &MResp{RPID: g16(t, "RPID"), PR: g8(t, "PR")}
		if gBool(t, "SDR") {
			p.Resp.SDR = genRecs(t, o, 1)
		}
	}
	return p
}

func genHeader(t *rapid.T, o genOpt) MPkg {
	p := MPkg{PRV: 1, SKID: g8(t, "SKID"), PRF: byte(gInt(t, 0, 3, "PRF")), RTE: gBool(t, "RTE"), ENA: byte(gInt(t, 0, 3, "ENA")),
		CMP: gBit(t, "CMP"), PR: byte(gInt(t, 0, 3, "PRI")), HE: g8(t, "HE"), PID: g16(t, "PID"), PT: 1}
	if o.AnyPRV && chance(t, 8, "PRV?") {
		p.PRV = g8(t, "PRV")
	}
	if p.RTE {
		p.PRA, p.RCA, p.TTL = g16(t, "PRA"), g16(t, "RCA"), g8(t, "TTL")
	}
	switch {
	case o.PT == 0:
		p.PT = 0
	case o.PT == -1 && chance(t, 4, "PT"):
		p.PT = 0
	}
	return p
}

func genRecs(t *rapid.T, o genOpt, min int) []MRec {
	n := gInt(t, min, o.MaxRecs, "recs")
	var out []MRec
	for i := 0; i < n; i++ {
		r := genRecHead(t)
		m := gInt(t, 0, o.MaxSubs, "subs")
		for j := 0; j < m; j++ {
			r.Subs = append(r.Subs, genSub(t, pick(t, o.Subs, "SRT"), o))
		}
		out = append(out, r)
	}
	return out
}

func genRecHead(t *rapid.T) MRec {
	return MRec{RN: g16(t, "RN"), SSOD: gBit(t, "SSOD"), RSOD: gBit(t, "RSOD"), GRP: gBit(t, "GRP"), RPP: byte(gInt(t, 0, 3, "RPP")),
		OID: o32(t, "OID"), EVID: o32(t, "EVID"), TM: o32(t, "TM"), SST: g8(t, "SST"), RST: g8(t, "RST")}
}

func genPos(t *rapid.T, kmh bool) *MPos {
	p := &MPos{NTM: g32(t, "NTM"), LAT: g32(t, "LAT"), LONG: g32(t, "LONG"), ALTE: gBool(t, "ALTE"), LOHS: gBit(t, "LOHS"), LAHS: gBit(t, "LAHS"),
		MV: gBit(t, "MV"), BB: gBit(t, "BB"), CS: gBit(t, "CS"), FIX: gBit(t, "FIX"), VLD: gBit(t, "VLD"),
		SPD: uint16(gU(t, 0x3FFF, "SPD")), ALTS: gBit(t, "ALTS"), DIRH: gBit(t, "DIRH"), DIR: g8(t, "DIR"), ODM: g24(t, "ODM"), DIN: g8(t, "DIN"), SRC: g8(t, "SRC")}
	if kmh {
		p.SPD -= p.SPD % 10
	}
	if p.DIRH == 1 {
		p.DIR &= 0x7F // headings end at 359 degrees
	}
	if p.ALTE {
		p.ALT = g24(t, "ALT")
	}
	return p
}

func genSub(t *rapid.T, typ byte, o genOpt) MSub {
	s := MSub{T: typ}
	switch typ {
	case 0:
		s.Resp = &MSResp{g16(t, "CRN"), g8(t, "RST")}
	case 1:
		m := &MTerm{TID: g32(t, "TID"), SSRA: gBit(t, "SSRA"), HDID: o16(t, "HDID"), IMEI: gFixed(t, 15, "IMEI"), IMSI: gFixed(t, 16, "IMSI"),
			LNGC: gFixed(t, 3, "LNGC"), BS: o16(t, "BS"), MSI: gFixed(t, 15, "MSI")}
		if gBool(t, "NIDE") {
			m.NID = gBytes(t, 3, 3, "NID", false)
		}
		s.Term = m
	case 5:
		s.Disp = &MDisp{DT: g8(t, "DT"), DID: g32(t, "DID"), DSCR: gBytes(t, 0, o.MaxStr, "DSCR", false)}
	case 7:
		s.Auth = &MAuth{UNM: gBytes(t, 0, o.MaxStr, "UNM", true), UPSW: gBytes(t, 0, o.MaxStr, "UPSW", true), SS: []byte{}}
		if gBool(t, "SSE") {
			s.Auth.SS = gBytes(t, 1, o.MaxStr, "SS", true)
		}
	case 9:
		v := g8(t, "RCD")
		s.RC = &v
	case 15:
		s.Plus = plusEncode(plusSchema, genPlus(t, plusSchema))
	case 16:
		s.Pos = genPos(t, o.Kmh)
	case 17:
		s.Ext = &MExt{VDOP: o16(t, "VDOP"), HDOP: o16(t, "HDOP"), PDOP: o16(t, "PDOP"), SAT: o8(t, "SAT"), NS: o16(t, "NS")}
	case 18:
		m := &MAd{DOUT: g8(t, "DOUT")}
		for i := 0; i < 8; i++ {
			m.DIO[i] = o8(t, "DIO")
			m.AN[i] = o24(t, "AN")
		}
		s.Ad = m
	case 19:
		m := &MCnt{}
		for i := 0; i < 8; i++ {
			m.CN[i] = o24(t, "CN")
		}
		s.Cnt = m
	case 20, 21:
		s.State = &MState{ST: g8(t, "ST"), MPSV: g8(t, "MPSV"), BBV: g8(t, "BBV"), IBV: g8(t, "IBV"), NMS: gBit(t, "NMS"), IBU: gBit(t, "IBU"), BBU: gBit(t, "BBU")}
	case 24:
		s.AbsAn = &MNum{g8(t, "ASN"), g24(t, "ASV")}
	case 25:
		s.AbsCnt = &MNum{g8(t, "CN"), g24(t, "CNV")}
		if chance(t, 3, "1xx") {
			s.AbsCnt.N = byte(gInt(t, 109, 112, "CN"))
		}
	case 27:
		s.Liq = &MLiq{EF: gBit(t, "EF"), VU: byte(gInt(t, 0, 3, "VU")), RDF: gBit(t, "RDF"), N: byte(gInt(t, 0, 7, "LLSN")), ADDR: g16(t, "MADDR"), DATA: g32(t, "LLSD")}
	}
	return s
}

// genPlus draws a valid message of the schema, fields in number order.
func genPlus(t *rapid.T, m *pMsg) PMsg {
	out := PMsg{}
	for _, f := range m.Fields {
		n := 1
		switch f.Label {
		case "optional":
			n = gInt(t, 0, 1, f.Name+"?")
		case "repeated":
			n = 0
			if chance(t, 4, f.Name+"?") {
				n = gInt(t, 1, 3, f.Name+"#")
			}
		}
		for i := 0; i < n; i++ {
			out = append(out, genPlusVal(t, f))
		}
	}
	return out
}

func genPlusVal(t *rapid.T, f *pField) PVal {
	v := PVal{N: f.Num}
	switch f.Type {
	case "bytes":
		v.B = gBytes(t, 0, 12, f.Name, false)
	case "msg":
		v.M = genPlus(t, f.Msg)
	case "enum":
		v.U = uint32(pick(t, f.Enum, f.Name))
	case "bool":
		v.U = uint32(gBit(t, f.Name))
	case "float":
		v.U = g32(t, f.Name)
		if v.U&0x7F800000 == 0x7F800000 {
			v.U &^= 0x7FFFFF // infinities, no NaN
		}
	default:
		v.U = g32(t, f.Name)
	}
	return v
}

// ---- shape predicates -------------------------------------------------------------

func (p *MPkg) recs() []MRec {
	if p.Resp != nil {
		return p.Resp.SDR
	}
	return p.App
}

func (p *MPkg) subCount() int {
	n := 0
	for _, r := range p.recs() {
		n += len(r.Subs)
	}
	return n
}

func labelPkg(r *Rec, p *MPkg) {
	if p.PT == 0 {
		r.Label("PT_RESPONSE")
	} else {
		r.Label("PT_APPDATA")
	}
	r.LabelIf(p.RTE, "routed")
	for _, x := range p.recs() {
		for i := range x.Subs {
			r.Label("sub " + itoa(int(x.Subs[i].T)))
		}
	}
}

func itoa(n int) string { return js(n) }
