package main

// Checks C03-C05, C09, C11, C12: damaged, truncated and out-of-range input.

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"runtime/metrics"
	"sort"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"pgregory.net/rapid"
)

// mark is the position of a length or type field in a body.
type mark struct {
	off  int
	kind byte // 'R' record length, 'S' subrecord length, 'T' subrecord type, 'F' record flags
}

// marks walks a body the way its lengths say, as far as they make sense.
func marks(body []byte, resp bool) []mark {
	var out []mark
	i := 0
	if resp {
		i = 3
	}
	for i+7 <= len(body) {
		rl := int(body[i]) | int(body[i+1])<<8
		out = append(out, mark{i, 'R'}, mark{i + 4, 'F'})
		f := body[i+4]
		j := i + 7
		for b := uint(0); b < 3; b++ {
			if f>>b&1 != 0 {
				j += 4
			}
		}
		end := j + rl
		for k := j; k+3 <= end && k+3 <= len(body); {
			sl := int(body[k+1]) | int(body[k+2])<<8
			out = append(out, mark{k, 'T'}, mark{k + 1, 'S'})
			k += 3 + sl
		}
		i = end
	}
	return out
}

func genMutated(t *rapid.T) BytesCase {
	var p MPkg
	if chance(t, 6, "corpus") {
		m, _, err := refDecode(corpus()[gInt(t, 0, len(corpus())-1, "row")])
		if err != nil {
			m = MPkg{PRV: 1, PT: 1}
		}
		p = m
	} else {
		p = genPkg(t, genOpt{PT: -1, MaxRecs: 3, MaxSubs: 3})
	}
	body := append([]byte{}, p.body()...)
	n := gInt(t, 0, 3, "mutations")
	for i := 0; i < n; i++ {
		body = mutateBody(t, body, p.PT == 0)
	}
	b := p.frame(body)
	if chance(t, 4, "headermut") {
		b = mutateHeader(t, b)
	}
	return BytesCase{b}
}

func mutateBody(t *rapid.T, body []byte, resp bool) []byte {
	if len(body) == 0 {
		return gBytes(t, 0, 30, "body", false)
	}
	ms := marks(body, resp)
	switch k := gInt(t, 0, 9, "op"); {
	case k == 0:
		body[gInt(t, 0, len(body)-1, "at")] = g8(t, "byte")
	case k == 1:
		body[gInt(t, 0, len(body)-1, "at")] ^= 1 << uint(gInt(t, 0, 7, "bit"))
	case k == 2: // cut the end off
		body = body[:gInt(t, 0, len(body)-1, "cut")]
	case k == 3: // remove some bytes
		at := gInt(t, 0, len(body)-1, "at")
		m := gInt(t, 1, 8, "len")
		if at+m > len(body) {
			m = len(body) - at
		}
		body = append(body[:at], body[at+m:]...)
	case k == 4:
		at := gInt(t, 0, len(body), "at")
		ins := gBytes(t, 1, 6, "ins", false)
		body = append(append(append([]byte{}, body[:at]...), ins...), body[at:]...)
	case len(ms) == 0:
	case k == 9: // grow a record or subrecord consistently is left to insertion plus length edits
		body = append(body, body[:gInt(t, 0, len(body), "dup")]...)
	default:
		m := pick(t, ms, "mark")
		switch m.kind {
		case 'T':
			body[m.off] = pick(t, append(append([]byte{}, allSubs...), 22, 23, 26, 28, 33, 255), "type")
		case 'F':
			body[m.off] ^= 1 << uint(gInt(t, 0, 7, "bit"))
		default:
			v := uint16(body[m.off]) | uint16(body[m.off+1])<<8
			switch gInt(t, 0, 2, "how") {
			case 0:
				v += uint16(gInt(t, 1, 4, "d"))
			case 1:
				v -= uint16(gInt(t, 1, 4, "d"))
			default:
				v = g16(t, "v")
			}
			body[m.off], body[m.off+1] = byte(v), byte(v>>8)
		}
	}
	if len(body) > 65535 {
		body = body[:65535]
	}
	return body
}

func mutateHeader(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	switch gInt(t, 0, 8, "hop") {
	case 0:
		b[gInt(t, 0, 10, "at")] = g8(t, "byte")
	case 1:
		b[3] = byte(pick(t, []int{0, 1, 9, 10, 11, 12, 15, 16, 17, 255}, "HL"))
	case 2:
		b[2] ^= 0x20
	case 3:
		v := g16(t, "FDL")
		b[5], b[6] = byte(v), byte(v>>8)
	case 4:
		b[5]++
	case 5:
		b[5]--
	case 6:
		b[9] = byte(pick(t, []int{0, 1, 2, 3, 255}, "PT"))
	case 7:
		b = b[:gInt(t, 0, len(b), "cut")]
		return b
	case 8:
		b = append(b, gBytes(t, 1, 8, "tail", false)...)
	}
	if gBool(t, "fixcrc") {
		hl := int(b[3])
		if hl >= 1 && hl <= len(b) {
			b[hl-1] = refCRC8(b[:hl-1])
		} else if len(b) > 10 {
			b[10] = refCRC8(b[:10])
		}
	}
	return b
}

// ---- C03 -----------------------------------------------------------------------

type CrashCase struct {
	T string // packet, records, subrecords, response, or a section number
	B []byte
}

func genCrash(t *rapid.T) CrashCase {
	c := CrashCase{T: pick(t, []string{"packet", "packet", "packet", "records", "subrecords", "response", "section", "section"}, "T")}
	raw := func() []byte {
		if chance(t, 12, "long") {
			return gBytes(t, 0, 70000, "raw", false)
		}
		return gBytes(t, 0, 80, "raw", false)
	}
	switch c.T {
	case "packet":
		if chance(t, 4, "raw?") {
			c.B = raw()
			if len(c.B) > 10 && gBool(t, "hdr") {
				c.B[0], c.B[3] = 1, 11
				c.B[10] = refCRC8(c.B[:10])
			}
		} else {
			c.B = genMutated(t).B
			if chance(t, 3, "again") && len(c.B) > 0 {
				c.B[gInt(t, 0, len(c.B)-1, "at")] = g8(t, "v")
			}
		}
	case "records", "response":
		rs := genRecs(t, genOpt{MaxRecs: 3, MaxSubs: 3}.norm(), 0)
		b := encRecs(rs)
		if c.T == "response" {
			b = append(gBytes(t, 3, 3, "rh", false), b...)
		}
		for i := gInt(t, 0, 3, "mut"); i > 0; i-- {
			b = mutateBody(t, b, c.T == "response")
		}
		if chance(t, 5, "raw?") {
			b = raw()
		}
		c.B = b
	case "subrecords":
		r := genRecHead(t)
		for i := gInt(t, 0, 3, "n"); i > 0; i-- {
			r.Subs = append(r.Subs, genSub(t, pick(t, allSubs, "SRT"), genOpt{}.norm()))
		}
		b := r.data()
		if len(b) > 0 && gBool(t, "mut") {
			b[gInt(t, 0, len(b)-1, "at")] = g8(t, "v")
		}
		if len(b) > 0 && chance(t, 3, "cut?") {
			b = b[:gInt(t, 0, len(b), "cut")]
		}
		if chance(t, 5, "raw?") {
			b = raw()
		}
		c.B = b
	case "section":
		typ := pick(t, allSubs, "SRT")
		c.T = itoa(int(typ))
		s := genSub(t, typ, genOpt{}.norm())
		b := append([]byte{}, s.Data()...)
		if len(b) > 0 && gBool(t, "mut") {
			b[gInt(t, 0, len(b)-1, "at")] = g8(t, "v")
		}
		if len(b) > 0 && chance(t, 3, "cut?") {
			b = b[:gInt(t, 0, len(b), "cut")]
		}
		if chance(t, 4, "raw?") {
			b = raw()
		}
		c.B = b
	}
	return c
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func neverCrashes(r *Rec, c *CrashCase) *Failure {
	r.Label(c.T)
	in := append(make([]byte, 0, len(c.B)), c.B...)
	a0, t0 := heapAllocs(), time.Now()
	var err error
	var code uint8
	switch c.T {
	case "packet":
		code, err = (&egts.Package{}).Decode(in)
	case "records":
		err = (&egts.ServiceDataSet{}).Decode(in)
	case "subrecords":
		err = (&egts.RecordDataSet{}).Decode(in)
	case "response":
		err = (&egts.PtResponse{}).Decode(in)
	default:
		var n int
		fmt.Sscan(c.T, &n)
		err = newSection(byte(n)).Decode(in)
	}
	_ = code
	dt, da := time.Since(t0), heapAllocs()-a0
	if err != nil {
		r.Label("refused")
	} else {
		r.Label("accepted")
	}
	if len(c.B) > 3 {
		r.NonTrivial()
	}
	if da > 96<<20 {
		return failf("decoding %d bytes allocated %d MB", len(c.B), da>>20)
	}
	if dt > 10*time.Second {
		return softf("decoding %d bytes took %v", len(c.B), dt)
	}
	return nil
}

// ---- C04 -----------------------------------------------------------------------

type BurstCase struct {
	P    MPkg
	Seed uint64
	Own  bool // damage the library's encoding instead of the reference encoding
}

// ownBytes is the library's encoding of p, nil if it does not encode it.
func ownBytes(p *MPkg) (b []byte) {
	defer func() {
		if recover() != nil { // other checks report it
			b = nil
		}
	}()
	x := p.toSUT(convOpt{})
	b, err := x.Encode()
	if err != nil || len(b) < 11 {
		return nil
	}
	return b
}

func genBurst(t *rapid.T) BurstCase {
	p := genPkg(t, genOpt{PT: -1, MaxRecs: 2, MaxSubs: 3, MaxStr: 20})
	return BurstCase{p, rapid.Uint64().Draw(t, "seed"), gBool(t, "own")}
}

// genLongBurst draws packets whose bodies reach up to the 16-bit limit.
func genLongBurst(t *rapid.T) BurstCase {
	p := genBig(false)(t).P
	if len(p.body()) < 3000 {
		s := MSub{T: 5, Disp: &MDisp{DID: g32(t, "DID"), DSCR: gBytes(t, 0, 30000, "DSCR", false)}}
		rs := []MRec{{RN: g16(t, "RN"), Subs: []MSub{s}}, {RN: 1, Subs: []MSub{{T: 16, Pos: genPos(t, false)}}}}
		if p.PT == 0 {
			p.Resp = &MResp{SDR: rs}
		} else {
			p.App = rs
		}
	}
	return BurstCase{p, rapid.Uint64().Draw(t, "seed"), gBool(t, "own")}
}

// flipBurst xors pattern (n bits, first and last set) into b at bit position at.
func flipBurst(b []byte, at int, pattern uint32, n int) {
	for i := 0; i < n; i++ {
		if pattern>>uint(n-1-i)&1 != 0 {
			k := at + i
			b[k/8] ^= 0x80 >> uint(k%8)
		}
	}
}

func bursts(r *Rec, c *BurstCase) *Failure {
	b := c.P.Bytes()
	if own := ownBytes(&c.P); c.Own && own != nil {
		r.Label("encoded by the library")
		if _, _, err := refDecode(own); isErr(err, errHeaderCRC) || isErr(err, errBodyCRC) {
			if code, err2 := (&egts.Package{}).Decode(own); err2 == nil || code == 0 {
				return failf("a packet that does not match its checksum (%v) is accepted\n%s", err, hx(own))
			}
			return nil
		}
		b = own
	}
	hl := 11
	if c.P.RTE {
		hl = 16
	}
	if len(b) > hl+20 {
		r.NonTrivial()
	}
	rnd := newRnd(c.Seed)
	try := func(lo, hi, at, n int, pat uint32) *Failure {
		d := append([]byte{}, b...)
		flipBurst(d, lo*8+at, pat, n)
		code, err := (&egts.Package{}).Decode(d)
		r.Sub(1)
		if err == nil || code == 0 {
			return failf("a packet with a burst of %d damaged bits at bit %d is accepted (code %d)\ngood    %s\ndamaged %s", n, lo*8+at, code, hx(b), hx(d))
		}
		if lo == 0 && code != 131 && code != 137 {
			return failf("header damage is reported with code %d: %v\ngood    %s\ndamaged %s", code, err, hx(b), hx(d))
		}
		if lo != 0 && code != 138 {
			return failf("body damage is reported with code %d: %v\ngood    %s\ndamaged %s", code, err, hx(b), hx(d))
		}
		return nil
	}
	// header: every burst of up to 8 bits
	for n := 1; n <= 8; n++ {
		in := uint32(0)
		if n > 2 {
			in = 1 << uint(n-2)
		} else {
			in = 1
		}
		for at := 0; at+n <= hl*8; at++ {
			// all patterns at some places, one at the others
			for v := uint32(0); v < in; v++ {
				if in > 4 && rnd.Intn(4) != 0 {
					continue
				}
				pat := uint32(1)<<uint(n-1) | 1
				if n > 2 {
					pat |= v << 1
				}
				if f := try(0, hl, at, n, pat); f != nil {
					return f
				}
			}
		}
	}
	if len(b) <= hl {
		return nil
	}
	bl := (len(b) - hl) * 8
	// body and its checksum: every one-bit error, sampled bursts of up to 16 bits
	// in long bodies: sampled places, many of them at the end and around powers of two
	long := bl > 8000
	place := func(room int) int {
		at := rnd.Intn(room)
		if long {
			switch rnd.Intn(4) {
			case 0:
				at = room - 1 - rnd.Intn(400)
			case 1:
				at = 8<<uint(rnd.Intn(17)) - 24 + rnd.Intn(48)
			}
			if at < 0 || at >= room {
				at = rnd.Intn(room)
			}
		}
		return at
	}
	for at := 0; at < bl; at++ {
		k := at
		if long {
			if at >= 250 {
				break
			}
			k = place(bl)
		}
		if f := try(hl, len(b), k, 1, 1); f != nil {
			return f
		}
	}
	tries := 600
	if long {
		tries = 250
	}
	for i := 0; i < tries; i++ {
		n := 2 + rnd.Intn(15)
		if n > bl {
			continue
		}
		pat := uint32(1)<<uint(n-1) | 1 | uint32(rnd.Intn(1<<uint(n)))
		if f := try(hl, len(b), place(bl-n+1), n, pat); f != nil {
			return f
		}
	}
	return nil
}

type DamageCase struct {
	B    []byte
	Edit []Edit
	HCS  string // what replaces the checksum of the header, see odd8
	CRC  string // and of the body, see odd16
	Both bool   // the header checksum is made right again after the edits
}
type Edit struct {
	At int
	V  byte
}

func genDamage(t *rapid.T) DamageCase {
	p := genPkg(t, genOpt{PT: -1, MaxRecs: 3, MaxSubs: 3})
	if chance(t, 25, "long") {
		p = genLongBurst(t).P
	}
	c := DamageCase{B: p.Bytes()}
	if own := ownBytes(&p); own != nil && gBool(t, "own") {
		c.B = own
	}
	for i := gInt(t, 1, 6, "edits"); i > 0; i-- {
		at := gInt(t, 0, len(c.B)-1, "at")
		if gBool(t, "hdr") {
			at = gInt(t, 0, 15, "hat") % len(c.B)
		}
		c.Edit = append(c.Edit, Edit{at, g8(t, "v")})
	}
	if chance(t, 3, "sums") {
		if gBool(t, "keep") { // only the checksums are wrong
			c.Edit = nil
		}
		switch gInt(t, 0, 3, "which") {
		case 0:
			c.HCS = pick(t, odd8, "HCS")
		case 1:
			c.HCS, c.CRC = pick(t, odd8, "HCS"), pick(t, odd16, "CRC")
		default:
			c.CRC = pick(t, odd16, "CRC")
		}
	}
	c.Both = c.HCS == "" && gBool(t, "both")
	return c
}

// Checksums other systems use, or that a lenient reader might let through.
var (
	odd8  = []string{"zero", "ones", "not", "sum", "xor", "init0", "short", "long"}
	odd16 = []string{"zero", "zero", "ones", "not", "swap", "init0", "modbus", "sum", "short", "header", "packet", "low", "high", "plus1", "minus1"}
)

func wrong8(kind string, h []byte) byte { // h: the header with its checksum
	n := len(h) - 1
	v := byte(0)
	switch kind {
	case "ones":
		v = 0xFF
	case "not":
		v = ^h[n]
	case "sum":
		for _, x := range h[:n] {
			v += x
		}
	case "xor":
		for _, x := range h[:n] {
			v ^= x
		}
	case "init0":
		for _, x := range h[:n] {
			v ^= x
			for i := 0; i < 8; i++ {
				if v&0x80 != 0 {
					v = v<<1 ^ 0x31
				} else {
					v <<= 1
				}
			}
		}
	case "short":
		v = refCRC8(h[:n-1])
	case "long":
		v = refCRC8(h)
	}
	return v
}

func wrong16(kind string, h, body []byte, crc uint16) uint16 {
	v := uint16(0)
	switch kind {
	case "ones":
		v = 0xFFFF
	case "not":
		v = ^crc
	case "swap":
		v = crc>>8 | crc<<8
	case "init0":
		for _, x := range body {
			v ^= uint16(x) << 8
			for i := 0; i < 8; i++ {
				if v&0x8000 != 0 {
					v = v<<1 ^ 0x1021
				} else {
					v <<= 1
				}
			}
		}
	case "modbus":
		v = 0xFFFF
		for _, x := range body {
			v ^= uint16(x)
			for i := 0; i < 8; i++ {
				if v&1 != 0 {
					v = v>>1 ^ 0xA001
				} else {
					v >>= 1
				}
			}
		}
	case "sum":
		for _, x := range body {
			v += uint16(x)
		}
	case "short":
		v = refCRC16(body[:len(body)-1])
	case "header":
		v = refCRC16(h)
	case "packet":
		v = refCRC16(append(append([]byte{}, h...), body...))
	case "low":
		v = crc & 0xFF
	case "high":
		v = crc & 0xFF00
	case "plus1":
		v = crc + 1
	case "minus1":
		v = crc - 1
	}
	return v
}

func damaged(r *Rec, c *DamageCase) *Failure {
	d := append([]byte{}, c.B...)
	for _, e := range c.Edit {
		if e.At < len(d) {
			d[e.At] = e.V
		}
	}
	hl := 11
	if len(d) > 2 && d[2]&0x20 != 0 {
		hl = 16
	}
	if c.CRC != "" && len(d) > hl+2 {
		n := len(d) - 2
		v := wrong16(c.CRC, d[:hl], d[hl:n], refCRC16(d[hl:n]))
		d[n], d[n+1] = byte(v), byte(v>>8)
		r.Label("body checksum: " + c.CRC)
	}
	if len(d) >= hl {
		if c.HCS != "" {
			d[hl-1] = wrong8(c.HCS, d[:hl])
			r.Label("header checksum: " + c.HCS)
		} else if c.Both {
			d[hl-1] = refCRC8(d[:hl-1])
		}
	}
	_, _, rerr := refDecode(d)
	code, err := (&egts.Package{}).Decode(d)
	bad := rerr != nil && (isErr(rerr, errHeaderForm) || isErr(rerr, errHeaderCRC) || isErr(rerr, errBodyCRC) || isErr(rerr, errBodyShort))
	if !bad {
		r.Label("no damage left")
		return nil
	}
	r.NonTrivial()
	r.Label(rerr.Error())
	if err == nil || code == 0 {
		return failf("a damaged packet is accepted (%v; code %d, error %v)\n%s", rerr, code, err, hx(d))
	}
	if (isErr(rerr, errHeaderForm) || isErr(rerr, errHeaderCRC)) && code != 131 && code != 137 {
		return failf("header damage (%v) is reported with code %d: %v\n%s", rerr, code, err, hx(d))
	}
	if isErr(rerr, errBodyCRC) && code != 138 && !(code == 133 && d[9] > 1) {
		return failf("body damage is reported with code %d: %v\n%s", code, err, hx(d))
	}
	return nil
}

// ---- C05 --------------------------------------------------------------------------

func genShort(t *rapid.T) BytesCase {
	p := genPkg(t, genOpt{PT: -1, MaxRecs: 3, MaxSubs: 3})
	body := append([]byte{}, p.body()...)
	resp := p.PT == 0
	switch ms := marks(body, resp); {
	case len(body) > 0 && gBool(t, "cut"):
		body = body[:gInt(t, 0, len(body)-1, "len")]
	case len(ms) > 0:
		for i := gInt(t, 1, 2, "n"); i > 0; i-- {
			m := pick(t, ms, "mark")
			if m.kind != 'R' && m.kind != 'S' {
				continue
			}
			v := uint16(body[m.off]) | uint16(body[m.off+1])<<8
			v += uint16(gInt(t, -6, 6, "d"))
			if chance(t, 6, "far") {
				v = g16(t, "v")
			}
			body[m.off], body[m.off+1] = byte(v), byte(v>>8)
		}
	}
	return BytesCase{p.frame(body)}
}

func lyingLengths(r *Rec, c *BytesCase) *Failure {
	m, _, rerr := refDecode(c.B)
	y := egts.Package{}
	code, err := y.Decode(c.B)
	switch {
	case rerr == nil:
		r.Label("still well-formed")
		if err == nil {
			m2, cerr := fromSUT(&y, false)
			if cerr != nil {
				return failf("%v\n%s", cerr, hx(c.B))
			}
			if d := diffPkg(&m, &m2, cmpOpt{WholeKmh: true}); d != "" {
				return failf("bytes moved between fields: %s\n%s", d, hx(c.B))
			}
		}
	case isErr(rerr, errLoose):
		r.Label("left open")
	default:
		r.NonTrivial()
		r.Label("short")
		if err == nil || code == 0 {
			m2, _ := fromSUT(&y, false)
			return failf("accepted although %v\nbytes %s\ndecoded as %s", rerr, hx(c.B), head(js(m2), 1))
		}
	}
	return nil
}

type PrefixCase struct{ P MPkg }

func everyPrefix(r *Rec, c *PrefixCase) *Failure {
	b := c.P.Bytes()
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	for n := 0; n < len(b); n++ {
		r.Sub(1)
		code, err := (&egts.Package{}).Decode(append([]byte{}, b[:n]...))
		if err == nil || code == 0 {
			return failf("the first %d of %d bytes of a packet are accepted (code %d, error %v)\n%s", n, len(b), code, err, hx(b))
		}
	}
	return nil
}

type SecPrefixCase struct{ S MSub }

func sectionPrefix(r *Rec, c *SecPrefixCase) *Failure {
	b := c.S.Data()
	r.Label("sub " + itoa(int(c.S.T)))
	for n := 0; n < len(b); n++ {
		_, rerr := refDecodeSub(c.S.T, b[:n])
		if c.S.T == 20 && n != 5 { // length selects the section only inside a record
			_, rerr = refDecodeSub(21, b[:n])
		}
		r.Sub(1)
		if rerr == nil || isErr(rerr, errLoose) {
			continue
		}
		r.NonTrivial()
		y := newSection(c.S.T)
		if err := y.Decode(append([]byte{}, b[:n]...)); err == nil {
			return failf("section %d: %d of %d bytes are accepted although %v\n%s", c.S.T, n, len(b), rerr, hx(b[:n]))
		}
	}
	return nil
}

// ---- C11 ---------------------------------------------------------------------------

func resultCodes(r *Rec, c *BytesCase) *Failure {
	_, _, rerr := refDecode(c.B)
	code, err := (&egts.Package{}).Decode(c.B)
	if (err == nil) != (code == 0) {
		return failf("code %d together with error %v\n%s", code, err, hx(c.B))
	}
	is := func(xs ...uint8) bool {
		for _, x := range xs {
			if x == code {
				return true
			}
		}
		return false
	}
	ok := true
	unsPT := len(c.B) > 9 && c.B[9] > 1
	switch {
	case rerr == nil:
		ok = code == 0
	case isErr(rerr, errLoose):
		ok = is(0, 129)
	case isErr(rerr, errHeaderForm), isErr(rerr, errHeaderCRC):
		ok = is(131, 137)
	case isErr(rerr, errBodyShort):
		ok = is(132) || unsPT && is(133)
	case isErr(rerr, errBodyCRC):
		ok = is(138) || unsPT && is(133)
	case isErr(rerr, errType):
		ok = is(133)
	case isErr(rerr, errBody):
		ok = is(129)
		if len(c.B) > 6 && c.B[5] == 0 && c.B[6] == 0 {
			ok = is(129, 132)
		}
	}
	l := "valid"
	if rerr != nil {
		l = strings.SplitN(rerr.Error(), ":", 2)[0]
		r.NonTrivial()
	}
	r.Label(l)
	if !ok {
		return failf("code %d (error %v) for: %v\n%s", code, err, rerr, hx(c.B))
	}
	return nil
}

func genAnyBytes(t *rapid.T) BytesCase {
	switch gInt(t, 0, 5, "src") {
	case 0:
		c := genDamage(t)
		for _, e := range c.Edit {
			c.B[e.At] = e.V
		}
		return BytesCase{c.B}
	case 1:
		return BytesCase{gBytes(t, 0, 40, "raw", false)}
	case 2:
		return genShort(t)
	}
	return genMutated(t)
}

// ---- C09 -----------------------------------------------------------------------------

// Out-of-range values. apply changes one field of the structures the library
// encodes; mask blanks that field in a model so the rest can be compared.
type oor struct {
	name  string
	typ   int // subrecord type, -1 record header, -2 packet header
	apply func(x any, v uint32, s string)
	mask  func(m any)
}

var badFlags = []string{"2", "10", "11", "01", "001", "x", "-1", "+1", "0b1", "111", " 1", "1_0"}

func oorTable() []oor {
	var out []oor
	add := func(o oor) { out = append(out, o) }
	// numbers wider than their field
	add(oor{"AbsAn.Value", 24, func(x any, v uint32, s string) { x.(*egts.SrAbsAnSensData).Value = v | 1<<24 }, func(m any) { m.(*MSub).AbsAn.V = 0 }})
	add(oor{"AbsCntr.CounterValue", 25, func(x any, v uint32, s string) { x.(*egts.SrAbsCntrData).CounterValue = v | 1<<25 }, func(m any) { m.(*MSub).AbsCnt.V = 0 }})
	add(oor{"Liquid.Number", 27, func(x any, v uint32, s string) { x.(*egts.SrLiquidLevelSensor).LiquidLevelSensorNumber = byte(v) | 8 }, func(m any) { m.(*MSub).Liq.N = 0 }})
	for i := 0; i < 8; i++ {
		i := i
		add(oor{fmt.Sprintf("AnalogSensor%d", i+1), 18, func(x any, v uint32, s string) {
			e := reflect.ValueOf(x).Elem()
			e.FieldByName(fmt.Sprintf("AnalogSensorFieldExists%d", i+1)).SetString("1")
			e.FieldByName(fmt.Sprintf("AnalogSensor%d", i+1)).SetUint(uint64(v | 1<<27))
		}, func(m any) { m.(*MSub).Ad.AN[i] = nil }})
		add(oor{fmt.Sprintf("Counter%d", i+1), 19, func(x any, v uint32, s string) {
			e := reflect.ValueOf(x).Elem()
			e.FieldByName(fmt.Sprintf("CounterFieldExists%d", i+1)).SetString("1")
			e.FieldByName(fmt.Sprintf("Counter%d", i+1)).SetUint(uint64(v | 1<<24))
		}, func(m any) { m.(*MSub).Cnt.CN[i] = nil }})
	}
	pos := func(name string, f func(p *egts.SrPosData, v uint32), mk func(p *MPos)) {
		add(oor{"Pos." + name, 16, func(x any, v uint32, s string) { f(x.(*egts.SrPosData), v) }, func(m any) { mk(m.(*MSub).Pos) }})
	}
	pos("Odometer", func(p *egts.SrPosData, v uint32) { p.Odometer = v | 1<<24 }, func(p *MPos) { p.ODM = 0 })
	pos("Altitude", func(p *egts.SrPosData, v uint32) { p.ALTE = "1"; p.Altitude = v | 1<<24 }, func(p *MPos) { p.ALTE, p.ALT = false, 0 })
	pos("Speed", func(p *egts.SrPosData, v uint32) { p.Speed = uint16(1639 + v%(65536-1639)) }, func(p *MPos) { p.SPD = 0 })
	pos("DIRH", func(p *egts.SrPosData, v uint32) { p.DirectionHighestBit = byte(v) | 2 }, func(p *MPos) { p.DIRH, p.DIR = 0, p.DIR&0x7F })
	pos("ALTS", func(p *egts.SrPosData, v uint32) { p.AltitudeSign = byte(v) | 2 }, func(p *MPos) { p.ALTS = 0 })
	pos("NTM early", func(p *egts.SrPosData, v uint32) { p.NavigationTime = epoch2010.Add(-time.Duration(v+1) * time.Second) }, func(p *MPos) { p.NTM = 0 })
	pos("NTM late", func(p *egts.SrPosData, v uint32) {
		p.NavigationTime = epoch2010.Add((1<<32 + time.Duration(v)) * time.Second)
	}, func(p *MPos) { p.NTM = 0 })
	for k, v := range map[string]float64{"big": 90.5, "huge": 1e300, "neg": -0.5, "nan": math.NaN(), "inf": math.Inf(1), "ninf": math.Inf(-1), "181": 181} {
		v := v
		pos("Lat "+k, func(p *egts.SrPosData, _ uint32) { p.Latitude = v }, func(p *MPos) { p.LAT = 0 })
		w := v
		if k == "big" {
			w = 180.5
		}
		pos("Lon "+k, func(p *egts.SrPosData, _ uint32) { p.Longitude = w }, func(p *MPos) { p.LONG = 0 })
	}
	// strings
	str := func(name string, f func(t *egts.SrTermIdentity, s string), mk func(t *MTerm)) {
		add(oor{"Term." + name, 1, func(x any, v uint32, s string) { f(x.(*egts.SrTermIdentity), s) }, func(m any) { mk(m.(*MSub).Term) }})
	}
	long := func(s string, n int) string { return s + strings.Repeat("9", n+1) }
	str("IMEI", func(t *egts.SrTermIdentity, s string) { t.IMEIE, t.IMEI = "1", long(s, 15) }, func(t *MTerm) { t.IMEI = nil })
	str("IMSI", func(t *egts.SrTermIdentity, s string) { t.IMSIE, t.IMSI = "1", long(s, 16) }, func(t *MTerm) { t.IMSI = nil })
	str("LNGC", func(t *egts.SrTermIdentity, s string) { t.LNGCE, t.LanguageCode = "1", long(s, 3) }, func(t *MTerm) { t.LNGC = nil })
	str("MSISDN", func(t *egts.SrTermIdentity, s string) { t.MNE, t.MobileNumber = "1", long(s, 15) }, func(t *MTerm) { t.MSI = nil })
	str("NID long", func(t *egts.SrTermIdentity, s string) { t.NIDE, t.NetworkIdentifier = "1", []byte(long(s, 3)) }, func(t *MTerm) { t.NID = nil })
	str("NID short", func(t *egts.SrTermIdentity, s string) { t.NIDE, t.NetworkIdentifier = "1", []byte{1}[:len(s)%2] }, func(t *MTerm) { t.NID = nil })
	auth := func(name string, f func(a *egts.SrAuthInfo, s string), mk func(a *MAuth)) {
		add(oor{"Auth." + name, 7, func(x any, v uint32, s string) { f(x.(*egts.SrAuthInfo), s) }, func(m any) { mk(m.(*MSub).Auth) }})
	}
	auth("UNM", func(a *egts.SrAuthInfo, s string) { a.UserName = s + "\x00" + s }, func(a *MAuth) { a.UNM = nil })
	auth("UPSW", func(a *egts.SrAuthInfo, s string) { a.UserPassword = s + "\x00" + s }, func(a *MAuth) { a.UPSW = nil })
	auth("SS", func(a *egts.SrAuthInfo, s string) { a.ServerSequence = s + "\x00" + s }, func(a *MAuth) { a.SS = nil })
	// flag strings that are no bits of the right width
	flag := func(typ int, field string, mk func(m any)) {
		add(oor{fmt.Sprintf("flag %d.%s", typ, field), typ, func(x any, v uint32, s string) {
			f := reflect.ValueOf(x).Elem().FieldByName(field)
			bad := badFlags[int(v)%len(badFlags)]
			if (field == "Prefix" || field == "EncryptionAlg" || field == "Priority" || field == "RecordProcessingPriority" || field == "LiquidLevelSensorValueUnit") && len(bad) == 2 {
				bad = "1" // two-bit fields
			}
			f.SetString(bad)
		}, mk})
	}
	sub := func(f func(s *MSub)) func(any) { return func(m any) { f(m.(*MSub)) } }
	flag(16, "ALTE", sub(func(s *MSub) { s.Pos.ALTE, s.Pos.ALT = false, 0 }))
	flag(16, "LOHS", sub(func(s *MSub) { s.Pos.LOHS = 0 }))
	flag(16, "LAHS", sub(func(s *MSub) { s.Pos.LAHS = 0 }))
	flag(16, "MV", sub(func(s *MSub) { s.Pos.MV = 0 }))
	flag(16, "BB", sub(func(s *MSub) { s.Pos.BB = 0 }))
	flag(16, "CS", sub(func(s *MSub) { s.Pos.CS = 0 }))
	flag(16, "FIX", sub(func(s *MSub) { s.Pos.FIX = 0 }))
	flag(16, "VLD", sub(func(s *MSub) { s.Pos.VLD = 0 }))
	flag(17, "NavigationSystemFieldExists", sub(func(s *MSub) { s.Ext.NS = nil }))
	flag(17, "SatellitesFieldExists", sub(func(s *MSub) { s.Ext.SAT = nil }))
	flag(17, "PdopFieldExists", sub(func(s *MSub) { s.Ext.PDOP = nil }))
	flag(17, "HdopFieldExists", sub(func(s *MSub) { s.Ext.HDOP = nil }))
	flag(17, "VdopFieldExists", sub(func(s *MSub) { s.Ext.VDOP = nil }))
	for i := 0; i < 8; i++ {
		i := i
		flag(18, fmt.Sprintf("DigitalInputsOctetExists%d", i+1), sub(func(s *MSub) { s.Ad.DIO[i] = nil }))
		flag(18, fmt.Sprintf("AnalogSensorFieldExists%d", i+1), sub(func(s *MSub) { s.Ad.AN[i] = nil }))
		flag(19, fmt.Sprintf("CounterFieldExists%d", i+1), sub(func(s *MSub) { s.Cnt.CN[i] = nil }))
	}
	flag(21, "NMS", sub(func(s *MSub) { s.State.NMS = 0 }))
	flag(21, "IBU", sub(func(s *MSub) { s.State.IBU = 0 }))
	flag(21, "BBU", sub(func(s *MSub) { s.State.BBU = 0 }))
	flag(27, "LiquidLevelSensorErrorFlag", sub(func(s *MSub) { s.Liq.EF = 0 }))
	flag(27, "LiquidLevelSensorValueUnit", sub(func(s *MSub) { s.Liq.VU = 0 }))
	flag(27, "RawDataFlag", sub(func(s *MSub) { s.Liq.RDF = 0 }))
	flag(1, "MNE", sub(func(s *MSub) { s.Term.MSI = nil }))
	flag(1, "BSE", sub(func(s *MSub) { s.Term.BS = nil }))
	flag(1, "NIDE", sub(func(s *MSub) { s.Term.NID = nil }))
	flag(1, "SSRA", sub(func(s *MSub) { s.Term.SSRA = 0 }))
	flag(1, "LNGCE", sub(func(s *MSub) { s.Term.LNGC = nil }))
	flag(1, "IMSIE", sub(func(s *MSub) { s.Term.IMSI = nil }))
	flag(1, "IMEIE", sub(func(s *MSub) { s.Term.IMEI = nil }))
	flag(1, "HDIDE", sub(func(s *MSub) { s.Term.HDID = nil }))
	rec := func(f func(s *MRec)) func(any) { return func(m any) { f(m.(*MRec)) } }
	flag(-1, "SourceServiceOnDevice", rec(func(r *MRec) { r.SSOD = 0 }))
	flag(-1, "RecipientServiceOnDevice", rec(func(r *MRec) { r.RSOD = 0 }))
	flag(-1, "Group", rec(func(r *MRec) { r.GRP = 0 }))
	flag(-1, "RecordProcessingPriority", rec(func(r *MRec) { r.RPP = 0 }))
	flag(-1, "TimeFieldExists", rec(func(r *MRec) { r.TM = nil }))
	flag(-1, "EventIDFieldExists", rec(func(r *MRec) { r.EVID = nil }))
	flag(-1, "ObjectIDFieldExists", rec(func(r *MRec) { r.OID = nil }))
	pkg := func(f func(p *MPkg)) func(any) { return func(m any) { f(m.(*MPkg)) } }
	flag(-2, "Prefix", pkg(func(p *MPkg) { p.PRF = 0 }))
	flag(-2, "Route", pkg(func(p *MPkg) { p.RTE, p.PRA, p.RCA, p.TTL = false, 0, 0, 0 }))
	flag(-2, "EncryptionAlg", pkg(func(p *MPkg) { p.ENA = 0 }))
	flag(-2, "Compression", pkg(func(p *MPkg) { p.CMP = 0 }))
	flag(-2, "Priority", pkg(func(p *MPkg) { p.PR = 0 }))
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var oors = oorTable()

type OORCase struct {
	P     MPkg
	Field string
	Rec   int
	Sub   int
	V     uint32
	S     string
	More  []OORMore `json:",omitempty"` // further values out of range in the same structure
}

type OORMore struct {
	Field string
	V     uint32
	S     string
}

func genOOR(t *rapid.T) OORCase {
	o := pick(t, oors, "field")
	p := genPkg(t, genOpt{Kmh: true, MaxRecs: 3, MaxSubs: 3, PT: 1, MaxStr: 12})
	c := OORCase{Field: o.name, V: g32(t, "V"), S: string(gBytes(t, 0, 20, "S", true))}
	if len(p.App) == 0 {
		p.App = []MRec{genRecHead(t)}
	}
	c.Rec = gInt(t, 0, len(p.App)-1, "rec")
	if o.typ >= 0 {
		r := &p.App[c.Rec]
		c.Sub = gInt(t, 0, len(r.Subs), "sub")
		s := genSub(t, byte(o.typ), genOpt{Kmh: true, MaxStr: 12}.norm())
		if s.Auth != nil && len(s.Auth.SS) == 0 && o.name != "Auth.SS" {
			s.Auth.SS = []byte("seq") // a value after the damaged one
		}
		r.Subs = append(r.Subs[:c.Sub:c.Sub], append([]MSub{s}, r.Subs[c.Sub:]...)...)
	}
	c.P = p
	if gBool(t, "several") {
		var same []oor
		for _, x := range oors {
			if x.typ == o.typ && x.name != o.name {
				same = append(same, x)
			}
		}
		for i := gInt(t, 1, 3, "more"); i > 0 && len(same) > 0; i-- {
			c.More = append(c.More, OORMore{Field: pick(t, same, "field").name, V: g32(t, "V"), S: string(gBytes(t, 0, 20, "S", true))})
		}
	}
	return c
}

func confined(r *Rec, c *OORCase) *Failure {
	all := append([]OORMore{{c.Field, c.V, c.S}}, c.More...)
	var tab []*oor
	for _, m := range all {
		for i := range oors {
			if oors[i].name == m.Field {
				tab = append(tab, &oors[i])
			}
		}
	}
	what := c.Field
	if len(all) > 1 {
		r.Label("several values")
		for _, m := range c.More {
			what += " and " + m.Field
		}
	}
	x := c.P.toSUT(convOpt{})
	set := *x.ServicesFrameData.(*egts.ServiceDataSet)
	for i, o := range tab {
		switch {
		case o.typ == -2:
			o.apply(x, all[i].V, all[i].S)
		case o.typ == -1:
			o.apply(&set[c.Rec], all[i].V, all[i].S)
		default:
			o.apply(set[c.Rec].RecordDataSet[c.Sub].SubrecordData, all[i].V, all[i].S)
		}
	}
	r.NonTrivial()
	b, err := x.Encode()
	if err != nil {
		r.Label("refused")
		return nil
	}
	r.Label("written")
	m, tail, rerr := refDecode(b)
	if rerr != nil || len(tail) > 0 {
		return failf("%s out of range makes the packet unreadable: %v\n%s", what, rerr, hx(b))
	}
	y := egts.Package{}
	if code, err := y.Decode(b); err != nil || code != 0 {
		return failf("%s out of range makes the packet unreadable: code %d %v\n%s", what, code, err, hx(b))
	}
	want := c.P
	blank := func(p *MPkg, o *oor) bool {
		switch {
		case o.typ == -2:
			o.mask(p)
		case c.Rec >= len(p.App):
			return false
		case o.typ == -1:
			o.mask(&p.App[c.Rec])
		case c.Sub >= len(p.App[c.Rec].Subs) || p.App[c.Rec].Subs[c.Sub].T != byte(o.typ):
			return false
		default:
			o.mask(&p.App[c.Rec].Subs[c.Sub])
		}
		return true
	}
	var w2 MPkg
	mustCopy(&want, &w2)
	for _, o := range tab {
		if !blank(&w2, o) || !blank(&m, o) {
			return failf("%s out of range changes the structure of the packet: %s", what, js(m))
		}
	}
	if d := diffPkg(&w2, &m, cmpOpt{Unit: 1}); d != "" {
		return failf("%s out of range changes another field: %s\n%s", what, d, hx(b))
	}
	return nil
}

// ---- C12 ------------------------------------------------------------------------------

type PlusCase struct {
	V      PMsg
	Drop   int  // a required field to leave out (0: none)
	Packed bool // repeated enum written packed
	Cut    int  // bytes to cut off the end
}

func genPlusCase(t *rapid.T) PlusCase {
	c := PlusCase{V: genPlus(t, plusSchema)}
	switch gInt(t, 0, 5, "kind") {
	case 0:
		c.Drop = pick(t, []int{1, 2, 4}, "drop")
	case 1:
		c.Packed = true
	case 2:
		c.Cut = gInt(t, 1, 40, "cut")
	}
	return c
}

var enumNames = sync2(func() map[int32]string {
	out := map[int32]string{}
	i := strings.Index(schemaText, "enum reason")
	j := i + strings.Index(schemaText[i:], "}")
	for _, m := range regexp.MustCompile(`([A-Z_]+)\s*=\s*(\d+);`).FindAllStringSubmatch(schemaText[i:j], -1) {
		var v int32
		fmt.Sscan(m[2], &v)
		out[v] = m[1]
	}
	return out
})

func plusSchemaCheck(r *Rec, c *PlusCase) *Failure {
	if len(c.V) > 4 {
		r.NonTrivial()
	}
	canon := plusEncode(plusSchema, c.V)
	if c.Drop > 0 {
		r.Label("required field missing")
		var v PMsg
		for _, x := range c.V {
			if x.N != c.Drop {
				v = append(v, x)
			}
		}
		b := plusEncode(plusSchema, v)
		if err := (&egts.StorageRecord{}).Decode(b); err == nil {
			return failf("bytes without the required field %d are accepted: %s", c.Drop, hx(b))
		}
		p := MPkg{PRV: 1, PT: 1, App: []MRec{{RN: 1, Subs: []MSub{{T: 15, Plus: b}}}}}
		if code, err := (&egts.Package{}).Decode(p.Bytes()); err == nil || code == 0 {
			return failf("a packet whose EGTS_PLUS data lacks the required field %d is accepted", c.Drop)
		}
		s, err := plusStruct(v)
		if err != nil {
			return failf("%v", err)
		}
		if b, err := s.Encode(); err == nil {
			return failf("a record without the required field %d is written: %s", c.Drop, hx(b))
		}
		return nil
	}
	if c.Cut > 0 && c.Cut < len(canon) {
		b := canon[:len(canon)-c.Cut]
		if _, err := plusDecode(plusSchema, b); err != nil && !isErr(err, errLoose) {
			r.Label("truncated")
			if err := (&egts.StorageRecord{}).Decode(b); err == nil {
				return failf("truncated data is accepted: %s", hx(b))
			}
		}
		return nil
	}
	b := canon
	if c.Packed {
		r.Label("packed")
		var v PMsg
		var pk []byte
		for _, x := range c.V {
			if x.N == 3 {
				pk = putVarint(pk, uint64(x.U))
			} else {
				v = append(v, x)
			}
		}
		b = plusEncode(plusSchema, v)
		if len(pk) > 0 {
			b = append(putVarint(append(b, 3<<3|2), uint64(len(pk))), pk...)
		}
	}
	y := &egts.StorageRecord{}
	if err := y.Decode(append([]byte{}, b...)); err != nil {
		return failf("valid data is refused: %v\n%s", err, hx(b))
	}
	got, err := plusModel(y)
	if err != nil {
		return failf("%v", err)
	}
	if g := plusEncode(plusSchema, got); !bytes.Equal(g, canon) {
		return failf("decoded record differs from the data\ndata    %s\nrecord  %s\nschema values %s", hx(canon), hx(g), head(js(got), 1))
	}
	if f := getters(plusSchema, c.V, reflect.ValueOf(y)); f != nil {
		return f
	}
	s, err := plusStruct(c.V)
	if err != nil {
		return failf("%v", err)
	}
	e, err := s.Encode()
	if err != nil {
		return failf("Encode refuses a valid record: %v", err)
	}
	v2, err := plusDecode(plusSchema, e)
	if err != nil && !isErr(err, errLoose) || err != nil && !strings.Contains(err.Error(), "field order") {
		return failf("encoded record does not follow the schema: %v\n%s", err, hx(e))
	}
	sort.SliceStable(v2, func(i, j int) bool { return v2[i].N < v2[j].N })
	if g := plusEncode(plusSchema, v2); !bytes.Equal(g, canon) {
		return failf("encoded record carries other values\nexpected %s\nencoded  %s", hx(canon), hx(e))
	}
	if n := s.Length(); int(n) != len(e) {
		return failf("Length() = %d, %d bytes encoded", n, len(e))
	}
	return nil
}

// getters compares the accessor methods with the values.
func getters(m *pMsg, vals PMsg, v reflect.Value) *Failure {
	for _, f := range m.Fields {
		g := v.MethodByName("Get" + goName(f.Name))
		if !g.IsValid() {
			return failf("no accessor for %s.%s", m.Name, f.Name)
		}
		out := g.Call(nil)[0]
		var mine PMsg
		for _, x := range vals {
			if x.N == f.Num {
				mine = append(mine, x)
			}
		}
		one := func(e reflect.Value, x PVal) *Failure {
			var got uint32
			switch e.Kind() {
			case reflect.Uint32:
				got = uint32(e.Uint())
			case reflect.Int32:
				got = uint32(int32(e.Int()))
				if f.Type == "enum" {
					if s, ok := e.Interface().(fmt.Stringer); ok && s.String() != enumNames()[int32(x.U)] {
						return failf("reason %d is named %s, %s expected", x.U, s.String(), enumNames()[int32(x.U)])
					}
				}
			case reflect.Bool:
				if e.Bool() {
					got = 1
				}
			case reflect.Float32:
				got = math.Float32bits(float32(e.Float()))
			case reflect.Ptr:
				return getters(f.Msg, x.M, e)
			}
			if got != x.U {
				return failf("accessor of %s.%s gives %d, %d expected", m.Name, f.Name, got, x.U)
			}
			return nil
		}
		switch {
		case f.Type == "bytes":
			var want []byte
			if len(mine) > 0 {
				want = mine[0].B
			}
			if !bytes.Equal(out.Bytes(), want) {
				return failf("accessor of %s.%s gives %x, %x expected", m.Name, f.Name, out.Bytes(), want)
			}
		case f.Label == "repeated":
			if out.Len() != len(mine) {
				return failf("accessor of %s.%s gives %d elements, %d expected", m.Name, f.Name, out.Len(), len(mine))
			}
			for i := range mine {
				if e := one(out.Index(i), mine[i]); e != nil {
					return e
				}
			}
		default:
			x := PVal{}
			if len(mine) > 0 {
				x = mine[0]
			}
			if e := one(out, x); e != nil {
				return e
			}
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C03", Parts: []*Part{
		part("bytes", "more than three input bytes", 75000, 600000, genCrash, neverCrashes),
	}, Fuzz: []Fuzz{{"FuzzBytes", "bytes", 12 * time.Second, 200 * time.Second}, {"FuzzCases", "bytes", 0, 90 * time.Second}}})
	register(&Check{ID: "C04", Parts: []*Part{
		part("bursts", "the packet has more than 20 bytes after its header", 40, 900, genBurst, bursts),
		part("long", "the packet has more than 20 bytes after its header", 25, 600, genLongBurst, bursts),
		part("edits", "a checksum or length no longer matches", 4000, 120000, genDamage, damaged),
	}})
	register(&Check{ID: "C05", Parts: []*Part{
		part("lengths", "the reference finds missing bytes", 30000, 200000, genShort, lyingLengths),
		part("mutated", "the reference finds missing or unsupported content", 20000, 150000, genMutated, lyingLengths),
		part("prefixes", "the packet has at least one subrecord", 1500, 8000, func(t *rapid.T) PrefixCase {
			return PrefixCase{genPkg(t, genOpt{PT: -1, MaxRecs: 2, MaxSubs: 2})}
		}, everyPrefix),
		part("sections", "some proper prefix lacks required bytes", 10000, 50000, func(t *rapid.T) SecPrefixCase {
			return SecPrefixCase{genSub(t, pick(t, allSubs, "SRT"), genOpt{}.norm())}
		}, sectionPrefix),
	}, Fuzz: []Fuzz{{"FuzzBytes", "mutated", 12 * time.Second, 200 * time.Second}, {"FuzzCases", "lengths", 0, 60 * time.Second}}})
	register(&Check{ID: "C09", Parts: []*Part{
		part("fields", "every out-of-range value counts", 30000, 120000, genOOR, confined),
	}, Fuzz: []Fuzz{{"FuzzCases", "fields", 0, 120 * time.Second}}})
	register(&Check{ID: "C11", Parts: []*Part{
		part("codes", "the packet is not a valid one", 24000, 250000, genAnyBytes, resultCodes),
		part("valid", "never (all valid)", 2400, 20000, func(t *rapid.T) BytesCase {
			p := genPkg(t, genOpt{PT: -1})
			return BytesCase{p.Bytes()}
		}, resultCodes),
	}, Fuzz: []Fuzz{{"FuzzBytes", "codes", 12 * time.Second, 200 * time.Second}, {"FuzzCases", "codes", 0, 60 * time.Second}}})
	register(&Check{ID: "C12", Parts: []*Part{
		part("schema", "more than the required fields are present", 15000, 80000, genPlusCase, plusSchemaCheck),
	}, Fuzz: []Fuzz{{"FuzzCases", "schema", 0, 120 * time.Second}}})
}
