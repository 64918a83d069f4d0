package main

// Independent reference implementation of the EGTS wire format, written from
// GOST R 54619-2011 / Order 285. It shares no code with the library under test.

import (
	"errors"
	"fmt"
)

// ---- model -----------------------------------------------------------------

type MPkg struct {
	PRV, SKID byte
	PRF       byte // 2 bits
	RTE       bool
	ENA       byte // 2 bits
	CMP       byte // 1 bit
	PR        byte // 2 bits
	HE        byte
	PID       uint16
	PT        byte
	PRA, RCA  uint16 `json:",omitempty"`
	TTL       byte   `json:",omitempty"`
	App       []MRec `json:",omitempty"` // PT=1
	Resp      *MResp `json:",omitempty"` // PT=0
	RawBody   []byte `json:",omitempty"` // overrides App/Resp when not nil
}

type MResp struct {
	RPID uint16
	PR   byte
	SDR  []MRec `json:",omitempty"`
}

type MRec struct {
	RN              uint16
	SSOD, RSOD, GRP byte    `json:",omitempty"`
	RPP             byte    `json:",omitempty"`
	OID             *uint32 `json:",omitempty"`
	EVID            *uint32 `json:",omitempty"`
	TM              *uint32 `json:",omitempty"`
	SST, RST        byte
	Subs            []MSub `json:",omitempty"`
}

type MSub struct {
	T      byte
	Resp   *MSResp `json:",omitempty"` // 0
	Term   *MTerm  `json:",omitempty"` // 1
	Disp   *MDisp  `json:",omitempty"` // 5
	Auth   *MAuth  `json:",omitempty"` // 7
	RC     *byte   `json:",omitempty"` // 9
	Plus   []byte  `json:",omitempty"` // 15
	Pos    *MPos   `json:",omitempty"` // 16
	Ext    *MExt   `json:",omitempty"` // 17
	Ad     *MAd    `json:",omitempty"` // 18
	Cnt    *MCnt   `json:",omitempty"` // 19
	State  *MState `json:",omitempty"` // 20 (5 bytes), 21
	AbsAn  *MNum   `json:",omitempty"` // 24
	AbsCnt *MNum   `json:",omitempty"` // 25
	Liq    *MLiq   `json:",omitempty"` // 27
	Raw    []byte  `json:",omitempty"` // anything else / deliberately malformed
}

type MSResp struct {
	CRN uint16
	RST byte
}
type MTerm struct {
	TID  uint32
	SSRA byte
	HDID *uint16 `json:",omitempty"`
	IMEI []byte  `json:",omitempty"` // 15 when present
	IMSI []byte  `json:",omitempty"` // 16
	LNGC []byte  `json:",omitempty"` // 3
	NID  []byte  `json:",omitempty"` // 3
	BS   *uint16 `json:",omitempty"`
	MSI  []byte  `json:",omitempty"` // 15
}
type MDisp struct {
	DT   byte
	DID  uint32
	DSCR []byte `json:",omitempty"`
}
type MAuth struct {
	UNM, UPSW []byte
	SS        []byte `json:",omitempty"` // present when not empty
}
type MPos struct {
	NTM, LAT, LONG         uint32
	ALTE                   bool
	LOHS, LAHS, MV, BB, CS byte
	FIX, VLD               byte
	SPD                    uint16 // 14 bits, 0.1 km/h
	ALTS, DIRH             byte
	DIR                    byte
	ODM                    uint32 // 24 bits
	DIN, SRC               byte
	ALT                    uint32 // 24 bits
}
type MExt struct {
	VDOP, HDOP, PDOP *uint16 `json:",omitempty"`
	SAT              *byte   `json:",omitempty"`
	NS               *uint16 `json:",omitempty"`
}
type MAd struct {
	DOUT byte
	DIO  [8]*byte   // octet i exists
	AN   [8]*uint32 // 24 bits
}
type MCnt struct{ CN [8]*uint32 }
type MState struct {
	ST, MPSV, BBV, IBV byte
	NMS, IBU, BBU      byte
}
type MNum struct {
	N byte
	V uint32 // 24 bits
}
type MLiq struct {
	EF, VU, RDF, N byte // 1,2,1,3 bits
	ADDR           uint16
	DATA           uint32
}

// ---- checksums (bitwise, from the polynomial definitions) --------------------

func refCRC8(b []byte) byte {
	crc := byte(0xFF)
	for _, x := range b {
		crc ^= x
		for i := 0; i < 8; i++ {
			if crc&0x80 != 0 {
				crc = crc<<1 ^ 0x31
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

func refCRC16(b []byte) uint16 {
	crc := uint16(0xFFFF)
	for _, x := range b {
		crc ^= uint16(x) << 8
		for i := 0; i < 8; i++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

// ---- encoder -----------------------------------------------------------------

func le16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func le24(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16)} }
func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func bit(c bool, n uint) byte {
	if c {
		return 1 << n
	}
	return 0
}

func (p *MPkg) body() []byte {
	if p.RawBody != nil {
		return p.RawBody
	}
	switch p.PT {
	case 1:
		return encRecs(p.App)
	case 0:
		if p.Resp == nil {
			return nil
		}
		b := append(le16(p.Resp.RPID), p.Resp.PR)
		return append(b, encRecs(p.Resp.SDR)...)
	}
	return nil
}

func (p *MPkg) Bytes() []byte {
	return p.frame(p.body())
}

func (p *MPkg) flags() byte {
	return p.PRF<<6 | bit(p.RTE, 5) | p.ENA<<3 | p.CMP<<2 | p.PR
}

func (p *MPkg) frame(body []byte) []byte {
	hl := byte(11)
	if p.RTE {
		hl = 16
	}
	b := make([]byte, 0, int(hl)+len(body)+2)
	b = append(b, p.PRV, p.SKID, p.flags(), hl, p.HE)
	b = append(b, le16(uint16(len(body)))...)
	b = append(b, le16(p.PID)...)
	b = append(b, p.PT)
	if p.RTE {
		b = append(b, le16(p.PRA)...)
		b = append(b, le16(p.RCA)...)
		b = append(b, p.TTL)
	}
	b = append(b, refCRC8(b))
	if len(body) > 0 {
		b = append(b, body...)
		b = append(b, le16(refCRC16(body))...)
	}
	return b
}

func encRecs(rs []MRec) []byte {
	var b []byte
	for i := range rs {
		b = append(b, rs[i].Bytes()...)
	}
	return b
}

func (r *MRec) head(rl int) []byte {
	b := append(le16(uint16(rl)), le16(r.RN)...)
	b = append(b, r.SSOD<<7|r.RSOD<<6|r.GRP<<5|r.RPP<<3|bit(r.TM != nil, 2)|bit(r.EVID != nil, 1)|bit(r.OID != nil, 0))
	if r.OID != nil {
		b = append(b, le32(*r.OID)...)
	}
	if r.EVID != nil {
		b = append(b, le32(*r.EVID)...)
	}
	if r.TM != nil {
		b = append(b, le32(*r.TM)...)
	}
	return append(b, r.SST, r.RST)
}

func (r *MRec) data() []byte {
	var rd []byte
	for i := range r.Subs {
		rd = append(rd, r.Subs[i].Bytes()...)
	}
	return rd
}

func (r *MRec) Bytes() []byte {
	rd := r.data()
	return append(r.head(len(rd)), rd...)
}

func (s *MSub) Bytes() []byte {
	d := s.Data()
	b := append([]byte{s.T}, le16(uint16(len(d)))...)
	return append(b, d...)
}

func (s *MSub) Data() []byte {
	switch {
	case s.Raw != nil:
		return s.Raw
	case s.Resp != nil:
		return append(le16(s.Resp.CRN), s.Resp.RST)
	case s.Term != nil:
		t := s.Term
		b := le32(t.TID)
		b = append(b, bit(t.MSI != nil, 7)|bit(t.BS != nil, 6)|bit(t.NID != nil, 5)|t.SSRA<<4|bit(t.LNGC != nil, 3)|bit(t.IMSI != nil, 2)|bit(t.IMEI != nil, 1)|bit(t.HDID != nil, 0))
		if t.HDID != nil {
			b = append(b, le16(*t.HDID)...)
		}
		b = append(b, t.IMEI...)
		b = append(b, t.IMSI...)
		b = append(b, t.LNGC...)
		b = append(b, t.NID...)
		if t.BS != nil {
			b = append(b, le16(*t.BS)...)
		}
		return append(b, t.MSI...)
	case s.Disp != nil:
		return append(append([]byte{s.Disp.DT}, le32(s.Disp.DID)...), s.Disp.DSCR...)
	case s.Auth != nil:
		b := append(append([]byte{}, s.Auth.UNM...), 0)
		b = append(append(b, s.Auth.UPSW...), 0)
		if len(s.Auth.SS) > 0 {
			b = append(append(b, s.Auth.SS...), 0)
		}
		return b
	case s.RC != nil:
		return []byte{*s.RC}
	case s.Pos != nil:
		p := s.Pos
		b := append(le32(p.NTM), le32(p.LAT)...)
		b = append(b, le32(p.LONG)...)
		b = append(b, bit(p.ALTE, 7)|p.LOHS<<6|p.LAHS<<5|p.MV<<4|p.BB<<3|p.CS<<2|p.FIX<<1|p.VLD)
		b = append(b, le16(uint16(p.DIRH)<<15|uint16(p.ALTS)<<14|p.SPD&0x3FFF)...)
		b = append(b, p.DIR)
		b = append(b, le24(p.ODM)...)
		b = append(b, p.DIN, p.SRC)
		if p.ALTE {
			b = append(b, le24(p.ALT)...)
		}
		return b
	case s.Ext != nil:
		e := s.Ext
		b := []byte{bit(e.NS != nil, 4) | bit(e.SAT != nil, 3) | bit(e.PDOP != nil, 2) | bit(e.HDOP != nil, 1) | bit(e.VDOP != nil, 0)}
		for _, v := range []*uint16{e.VDOP, e.HDOP, e.PDOP} {
			if v != nil {
				b = append(b, le16(*v)...)
			}
		}
		if e.SAT != nil {
			b = append(b, *e.SAT)
		}
		if e.NS != nil {
			b = append(b, le16(*e.NS)...)
		}
		return b
	case s.Ad != nil:
		a := s.Ad
		var df, af byte
		for i := 0; i < 8; i++ {
			df |= bit(a.DIO[i] != nil, uint(i))
			af |= bit(a.AN[i] != nil, uint(i))
		}
		b := []byte{df, a.DOUT, af}
		for i := 0; i < 8; i++ {
			if a.DIO[i] != nil {
				b = append(b, *a.DIO[i])
			}
		}
		for i := 0; i < 8; i++ {
			if a.AN[i] != nil {
				b = append(b, le24(*a.AN[i])...)
			}
		}
		return b
	case s.Cnt != nil:
		var f byte
		for i := 0; i < 8; i++ {
			f |= bit(s.Cnt.CN[i] != nil, uint(i))
		}
		b := []byte{f}
		for i := 0; i < 8; i++ {
			if s.Cnt.CN[i] != nil {
				b = append(b, le24(*s.Cnt.CN[i])...)
			}
		}
		return b
	case s.State != nil:
		t := s.State
		return []byte{t.ST, t.MPSV, t.BBV, t.IBV, t.NMS<<2 | t.IBU<<1 | t.BBU}
	case s.AbsAn != nil:
		return append([]byte{s.AbsAn.N}, le24(s.AbsAn.V)...)
	case s.AbsCnt != nil:
		return append([]byte{s.AbsCnt.N}, le24(s.AbsCnt.V)...)
	case s.Liq != nil:
		l := s.Liq
		b := []byte{l.EF<<6 | l.VU<<4 | l.RDF<<3 | l.N&7}
		b = append(b, le16(l.ADDR)...)
		return append(b, le32(l.DATA)...)
	default:
		return s.Plus
	}
}

// ---- decoder -----------------------------------------------------------------

// layer at which the reference refuses a packet
var (
	errHeaderForm = errors.New("header incomplete or contradictory")
	errHeaderCRC  = errors.New("header checksum mismatch")
	errBodyShort  = errors.New("body or body checksum incomplete")
	errBodyCRC    = errors.New("body checksum mismatch")
	errType       = errors.New("unsupported packet type")
	errBody       = errors.New("body cannot be parsed")      // definite
	errLoose      = errors.New("body not in canonical form") // the standard leaves it open
)

func isErr(err, target error) bool { return errors.Is(err, target) }

type rd struct {
	b []byte
	e error
}

func (r *rd) n(k int) []byte {
	if r.e != nil || len(r.b) < k {
		if r.e == nil {
			r.e = fmt.Errorf("%w: %d bytes wanted, %d left", errBody, k, len(r.b))
		}
		return make([]byte, k)
	}
	x := r.b[:k]
	r.b = r.b[k:]
	return x
}
func (r *rd) u8() byte { return r.n(1)[0] }
func (r *rd) u16() uint16 {
	x := r.n(2)
	return uint16(x[0]) | uint16(x[1])<<8
}
func (r *rd) u24() uint32 {
	x := r.n(3)
	return uint32(x[0]) | uint32(x[1])<<8 | uint32(x[2])<<16
}
func (r *rd) u32() uint32 {
	x := r.n(4)
	return uint32(x[0]) | uint32(x[1])<<8 | uint32(x[2])<<16 | uint32(x[3])<<24
}
func (r *rd) cp(k int) []byte { return append([]byte{}, r.n(k)...) }

// refDecode reads one packet. tail is what follows it. On a parse error of the
// body the header fields and RawBody are filled in.
func refDecode(b []byte) (p MPkg, tail []byte, err error) {
	if len(b) < 11 {
		return p, nil, errHeaderForm
	}
	p.PRV, p.SKID = b[0], b[1]
	f := b[2]
	p.PRF, p.RTE, p.ENA, p.CMP, p.PR = f>>6, f&0x20 != 0, f>>3&3, f>>2&1, f&3
	hl := int(b[3])
	p.HE = b[4]
	fdl := int(b[5]) | int(b[6])<<8
	p.PID = uint16(b[7]) | uint16(b[8])<<8
	p.PT = b[9]
	want := 11
	if p.RTE {
		want = 16
	}
	if hl != want || len(b) < want {
		return p, nil, errHeaderForm
	}
	if p.RTE {
		p.PRA = uint16(b[10]) | uint16(b[11])<<8
		p.RCA = uint16(b[12]) | uint16(b[13])<<8
		p.TTL = b[14]
	}
	if refCRC8(b[:hl-1]) != b[hl-1] {
		return p, nil, errHeaderCRC
	}
	rest := b[hl:]
	var body []byte
	if fdl > 0 {
		if len(rest) < fdl+2 {
			return p, nil, errBodyShort
		}
		body = rest[:fdl]
		if refCRC16(body) != uint16(rest[fdl])|uint16(rest[fdl+1])<<8 {
			return p, nil, errBodyCRC
		}
		rest = rest[fdl+2:]
	}
	tail = rest
	switch p.PT {
	case 1:
		p.App, err = refDecodeRecs(body)
	case 0:
		r := &rd{b: body}
		m := MResp{RPID: r.u16(), PR: r.u8()}
		if r.e != nil {
			err = r.e
		} else {
			m.SDR, err = refDecodeRecs(r.b)
			p.Resp = &m
		}
	default:
		return p, tail, errType
	}
	if err != nil {
		p.RawBody = append([]byte{}, body...)
	}
	return p, tail, err
}

func refDecodeRecs(b []byte) ([]MRec, error) {
	var out []MRec
	loose := error(nil)
	r := &rd{b: b}
	for len(r.b) > 0 {
		rl := int(r.u16())
		m := MRec{RN: r.u16()}
		f := r.u8()
		m.SSOD, m.RSOD, m.GRP, m.RPP = f>>7, f>>6&1, f>>5&1, f>>3&3
		if f&1 != 0 {
			v := r.u32()
			m.OID = &v
		}
		if f&2 != 0 {
			v := r.u32()
			m.EVID = &v
		}
		if f&4 != 0 {
			v := r.u32()
			m.TM = &v
		}
		m.SST, m.RST = r.u8(), r.u8()
		if r.e != nil {
			return nil, r.e
		}
		if len(r.b) == 0 && rl > 0 { // tolerated: final record without its data
			loose = fmt.Errorf("%w: final record without data", errLoose)
		} else {
			if len(r.b) < rl {
				return nil, fmt.Errorf("%w: RL %d exceeds the %d bytes left", errBody, rl, len(r.b))
			}
			subs, err := refDecodeSubs(r.n(rl))
			if err != nil && !isErr(err, errLoose) {
				return nil, err
			}
			if err != nil {
				loose = err
			}
			m.Subs = subs
		}
		out = append(out, m)
	}
	return out, loose
}

func refDecodeSubs(b []byte) ([]MSub, error) {
	var out []MSub
	loose := error(nil)
	r := &rd{b: b}
	for len(r.b) > 0 {
		t := r.u8()
		l := int(r.u16())
		if r.e == nil && len(r.b) < l {
			return nil, fmt.Errorf("%w: SRL %d exceeds the %d bytes left", errBody, l, len(r.b))
		}
		d := r.n(l)
		if r.e != nil {
			return nil, r.e
		}
		s, err := refDecodeSub(t, d)
		if err != nil && !isErr(err, errLoose) {
			return nil, err
		}
		if err != nil {
			loose = err
		}
		out = append(out, s)
	}
	return out, loose
}

func refDecodeSub(t byte, d []byte) (MSub, error) {
	s := MSub{T: t}
	r := &rd{b: d}
	loose := error(nil)
	odd := func(what string) { loose = fmt.Errorf("%w: %s", errLoose, what) }
	switch t {
	case 0:
		s.Resp = &MSResp{CRN: r.u16(), RST: r.u8()}
	case 1:
		m := &MTerm{TID: r.u32()}
		f := r.u8()
		m.SSRA = f >> 4 & 1
		if f&1 != 0 {
			v := r.u16()
			m.HDID = &v
		}
		if f&2 != 0 {
			m.IMEI = r.cp(15)
		}
		if f&4 != 0 {
			m.IMSI = r.cp(16)
		}
		if f&8 != 0 {
			m.LNGC = r.cp(3)
		}
		if f&0x20 != 0 {
			m.NID = r.cp(3)
		}
		if f&0x40 != 0 {
			v := r.u16()
			m.BS = &v
		}
		if f&0x80 != 0 {
			m.MSI = r.cp(15)
		}
		s.Term = m
	case 5:
		m := &MDisp{DT: r.u8(), DID: r.u32()}
		m.DSCR = r.cp(len(r.b))
		s.Disp = m
	case 7:
		m := &MAuth{}
		str := func() []byte {
			for i, c := range r.b {
				if c == 0 {
					x := r.cp(i)
					r.u8()
					return x
				}
			}
			if r.e == nil {
				r.e = fmt.Errorf("%w: unterminated string", errBody)
			}
			return nil
		}
		m.UNM, m.UPSW = str(), str()
		if r.e == nil && len(r.b) > 0 {
			m.SS = str()
			if len(m.SS) == 0 {
				odd("empty SS")
			}
		}
		s.Auth = m
	case 9:
		v := r.u8()
		s.RC = &v
	case 15:
		s.Plus = r.cp(len(r.b))
		if err := plusValid(s.Plus); err != nil {
			if isErr(err, errLoose) {
				odd(err.Error())
			} else {
				return s, err
			}
		}
	case 16:
		m := &MPos{NTM: r.u32(), LAT: r.u32(), LONG: r.u32()}
		f := r.u8()
		m.ALTE, m.LOHS, m.LAHS, m.MV, m.BB, m.CS, m.FIX, m.VLD = f>>7 != 0, f>>6&1, f>>5&1, f>>4&1, f>>3&1, f>>2&1, f>>1&1, f&1
		sp := r.u16()
		m.DIRH, m.ALTS, m.SPD = byte(sp>>15), byte(sp>>14&1), sp&0x3FFF
		m.DIR, m.ODM, m.DIN, m.SRC = r.u8(), r.u24(), r.u8(), r.u8()
		if m.ALTE {
			m.ALT = r.u24()
		}
		s.Pos = m
	case 17:
		m := &MExt{}
		f := r.u8()
		if f&^0x1F != 0 {
			odd("unused flag bits")
		}
		if f&1 != 0 {
			v := r.u16()
			m.VDOP = &v
		}
		if f&2 != 0 {
			v := r.u16()
			m.HDOP = &v
		}
		if f&4 != 0 {
			v := r.u16()
			m.PDOP = &v
		}
		if f&8 != 0 {
			v := r.u8()
			m.SAT = &v
		}
		if f&16 != 0 {
			v := r.u16()
			m.NS = &v
		}
		s.Ext = m
	case 18:
		m := &MAd{}
		df := r.u8()
		m.DOUT = r.u8()
		af := r.u8()
		for i := 0; i < 8; i++ {
			if df>>uint(i)&1 != 0 {
				v := r.u8()
				m.DIO[i] = &v
			}
		}
		for i := 0; i < 8; i++ {
			if af>>uint(i)&1 != 0 {
				v := r.u24()
				m.AN[i] = &v
			}
		}
		s.Ad = m
	case 19:
		m := &MCnt{}
		f := r.u8()
		for i := 0; i < 8; i++ {
			if f>>uint(i)&1 != 0 {
				v := r.u24()
				m.CN[i] = &v
			}
		}
		s.Cnt = m
	case 20, 21:
		if t == 20 && len(d) != 5 { // EGTS_SR_ACCEL_DATA, not supported
			return s, fmt.Errorf("%w: accelerometer data", errBody)
		}
		m := &MState{ST: r.u8(), MPSV: r.u8(), BBV: r.u8(), IBV: r.u8()}
		f := r.u8()
		if f&^7 != 0 {
			odd("unused flag bits")
		}
		m.NMS, m.IBU, m.BBU = f>>2&1, f>>1&1, f&1
		s.State = m
	case 24:
		s.AbsAn = &MNum{N: r.u8(), V: r.u24()}
	case 25:
		s.AbsCnt = &MNum{N: r.u8(), V: r.u24()}
	case 27:
		f := r.u8()
		if f&0x80 != 0 {
			odd("unused flag bit")
		}
		s.Liq = &MLiq{EF: f >> 6 & 1, VU: f >> 4 & 3, RDF: f >> 3 & 1, N: f & 7, ADDR: r.u16(), DATA: r.u32()}
	default:
		return s, fmt.Errorf("%w: unknown subrecord type %d", errBody, t)
	}
	if r.e != nil {
		return s, r.e
	}
	if len(r.b) > 0 {
		odd("trailing bytes in subrecord")
		if t == 0 { // the tail of a record response is itself parsed as records
			if _, err := refDecodeRecs(r.b); err != nil && !isErr(err, errLoose) {
				// unsupported content, no verdict
				odd("unparsable tail of record response")
			}
		}
	}
	return s, loose
}
