package main

// Check C13: the JSON of a packet.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"pgregory.net/rapid"
)

// JPkgCase is a packet, either decoded from the reference encoder's bytes or put together by hand.
type JPkgCase struct {
	P     MPkg
	Built bool `json:",omitempty"`
	Times int  // how often the document is made
}

// expected values with a rule of their own
type jText []byte         // a string, comparable only when it is valid UTF-8; trailing zero bytes do not count
type jOpt struct{ v any } // may be missing when zero
type jDeg struct {        // coordinate
	raw  uint32
	full float64
}
type jTime uint32
type jDir struct{ dir, dirh byte }
type jB64 []byte
type jFloat32 uint32
type jAbsent struct{}
type jList []any

// jStr is a string.
type jStr string

func jNum(v uint64) any { return json.Number(strconv.FormatUint(v, 10)) }

type jObj map[string]any

func u16p(p *uint16) any {
	if p == nil {
		return jOpt{jNum(0)}
	}
	return jNum(uint64(*p))
}
func u32p(p *uint32) any {
	if p == nil {
		return jOpt{jNum(0)}
	}
	return jNum(uint64(*p))
}
func u8p(p *byte) any {
	if p == nil {
		return jOpt{jNum(0)}
	}
	return jNum(uint64(*p))
}
func textp(b []byte) any {
	if b == nil {
		return jOpt{jStr("")}
	}
	return jText(b)
}

// jPkg is the document of a packet; keys are the abbreviations of the standard.
func jPkg(p *MPkg, built bool) jObj {
	o := jObj{"PRV": jNum(uint64(p.PRV)), "SKID": jNum(uint64(p.SKID)), "PRF": jStr(bits(p.PRF, 2)), "RTE": jStr(flagStr(p.RTE)), "ENA": jStr(bits(p.ENA, 2)),
		"CMP": jStr(bits(p.CMP, 1)), "PR": jStr(bits(p.PR, 2)), "HE": jNum(uint64(p.HE)), "PID": jNum(uint64(p.PID)), "PT": jNum(uint64(p.PT))}
	if p.RTE {
		o["PRA"], o["RCA"], o["TTL"] = jNum(uint64(p.PRA)), jNum(uint64(p.RCA)), jNum(uint64(p.TTL))
	} else {
		o["PRA"], o["RCA"], o["TTL"] = jOpt{jNum(0)}, jOpt{jNum(0)}, jOpt{jNum(0)}
	}
	if !built {
		body := p.body()
		hl := 11
		if p.RTE {
			hl = 16
		}
		o["HL"], o["FDL"], o["HCS"] = jNum(uint64(hl)), jNum(uint64(len(body))), jNum(uint64(p.frame(body)[hl-1]))
		if len(body) > 0 {
			o["SFRCS"] = jNum(uint64(refCRC16(body)))
		}
	}
	if p.PT == 1 {
		o["SFRD"] = jRecs(p.App, built)
	} else if p.Resp != nil {
		r := jObj{"RPID": jNum(uint64(p.Resp.RPID)), "PR": jNum(uint64(p.Resp.PR))}
		r["SDR"] = jRecs(p.Resp.SDR, built)
		o["SFRD"] = r
	}
	return o
}

func jRecs(rs []MRec, built bool) jList {
	out := jList{}
	for i := range rs {
		r := &rs[i]
		o := jObj{"RN": jNum(uint64(r.RN)), "SSOD": jStr(bits(r.SSOD, 1)), "RSOD": jStr(bits(r.RSOD, 1)), "GRP": jStr(bits(r.GRP, 1)), "RPP": jStr(bits(r.RPP, 2)),
			"TMFE": jStr(flagStr(r.TM != nil)), "EVFE": jStr(flagStr(r.EVID != nil)), "OBFE": jStr(flagStr(r.OID != nil)),
			"OID": u32p(r.OID), "EVID": u32p(r.EVID), "TM": u32p(r.TM), "SST": jNum(uint64(r.SST)), "RST": jNum(uint64(r.RST))}
		subs := jList{}
		for j := range r.Subs {
			s := &r.Subs[j]
			so := jObj{"SRD": jSub(s)}
			if !built {
				so["SRT"], so["SRL"] = jNum(uint64(s.T)), jNum(uint64(len(s.Data())))
			}
			subs = append(subs, so)
		}
		o["RD"] = subs
		if !built {
			o["RL"] = jNum(uint64(len(r.data())))
		}
		out = append(out, o)
	}
	return out
}

func jSub(s *MSub) jObj {
	n := func(v byte) any { return jNum(uint64(v)) }
	f := func(v byte) any { return jStr(bits(v, 1)) }
	has := func(v bool) any { return jStr(flagStr(v)) }
	switch {
	case s.Resp != nil:
		return jObj{"CRN": jNum(uint64(s.Resp.CRN)), "RST": n(s.Resp.RST)}
	case s.Term != nil:
		t := s.Term
		o := jObj{"TID": jNum(uint64(t.TID)), "MNE": has(t.MSI != nil), "BSE": has(t.BS != nil), "NIDE": has(t.NID != nil), "SSRA": f(t.SSRA), "LNGCE": has(t.LNGC != nil),
			"IMSIE": has(t.IMSI != nil), "IMEIE": has(t.IMEI != nil), "HDIDE": has(t.HDID != nil), "HDID": u16p(t.HDID), "IMEI": textp(t.IMEI), "IMSI": textp(t.IMSI),
			"LNGC": textp(t.LNGC), "BS": u16p(t.BS), "MSISDN": textp(t.MSI)}
		if t.NID != nil {
			o["NID"] = jB64(t.NID)
		}
		return o
	case s.Disp != nil:
		return jObj{"DT": n(s.Disp.DT), "DID": jNum(uint64(s.Disp.DID)), "DSCR": jText(s.Disp.DSCR)}
	case s.Auth != nil:
		return jObj{"UNM": jText(s.Auth.UNM), "UPSW": jText(s.Auth.UPSW), "SS": jText(s.Auth.SS)}
	case s.RC != nil:
		return jObj{"RCD": n(*s.RC)}
	case s.Pos != nil:
		p := s.Pos
		o := jObj{"NTM": jTime(p.NTM), "LAT": jDeg{p.LAT, 90}, "LONG": jDeg{p.LONG, 180}, "ALTE": has(p.ALTE), "LOHS": f(p.LOHS), "LAHS": f(p.LAHS), "MV": f(p.MV),
			"BB": f(p.BB), "CS": f(p.CS), "FIX": f(p.FIX), "VLD": f(p.VLD), "DIRH": n(p.DIRH), "ALTS": n(p.ALTS), "SPD": jNum(uint64(p.SPD / 10)),
			"DIR": jDir{p.DIR, p.DIRH}, "ODM": jNum(uint64(p.ODM)), "DIN": n(p.DIN), "SRC": n(p.SRC), "ALT": jOpt{jNum(0)}}
		if p.ALTE {
			o["ALT"] = jNum(uint64(p.ALT))
		}
		return o
	case s.Ext != nil:
		e := s.Ext
		return jObj{"NSFE": has(e.NS != nil), "SFE": has(e.SAT != nil), "PFE": has(e.PDOP != nil), "HFE": has(e.HDOP != nil), "VFE": has(e.VDOP != nil),
			"VDOP": u16p(e.VDOP), "HDOP": u16p(e.HDOP), "PDOP": u16p(e.PDOP), "SAT": u8p(e.SAT), "NS": u16p(e.NS)}
	case s.Ad != nil:
		o := jObj{"DOUT": n(s.Ad.DOUT)}
		for i := 0; i < 8; i++ {
			k := strconv.Itoa(i + 1)
			o["DIOE"+k], o["ASFE"+k] = has(s.Ad.DIO[i] != nil), has(s.Ad.AN[i] != nil)
			o["ADIO"+k], o["ANS"+k] = u8p(s.Ad.DIO[i]), u32p(s.Ad.AN[i])
		}
		return o
	case s.Cnt != nil:
		o := jObj{}
		for i := 0; i < 8; i++ {
			k := strconv.Itoa(i + 1)
			o["CFE"+k], o["CN"+k] = has(s.Cnt.CN[i] != nil), u32p(s.Cnt.CN[i])
		}
		return o
	case s.State != nil:
		t := s.State
		return jObj{"ST": n(t.ST), "MPSV": n(t.MPSV), "BBV": n(t.BBV), "IBV": n(t.IBV), "NMS": f(t.NMS), "IBU": f(t.IBU), "BBU": f(t.BBU)}
	case s.AbsAn != nil:
		return jObj{"SensorNumber": n(s.AbsAn.N), "Value": jNum(uint64(s.AbsAn.V))}
	case s.AbsCnt != nil:
		return jObj{"CN": n(s.AbsCnt.N), "CNV": jNum(uint64(s.AbsCnt.V))}
	case s.Liq != nil:
		l := s.Liq
		return jObj{"LLSEF": f(l.EF), "LLSVU": jStr(bits(l.VU, 2)), "RDF": f(l.RDF), "LLSN": n(l.N), "MADDR": jNum(uint64(l.ADDR)), "LLSD": jNum(uint64(l.DATA))}
	case s.Plus != nil:
		vals, err := plusDecode(plusSchema, s.Plus)
		if err != nil {
			panic(harnessPanic{err, "plus model"})
		}
		return jPlus(plusSchema, vals)
	}
	panic(harnessPanic{"empty subrecord model", ""})
}

// jPlus: keys are the field names of the published schema.
func jPlus(m *pMsg, vals PMsg) jObj {
	o := jObj{}
	for _, f := range m.Fields {
		o[f.Name] = jAbsent{}
	}
	for _, v := range vals {
		f := m.ByNum[v.N]
		var x any
		switch f.Type {
		case "bytes":
			x = jB64(v.B)
			if len(v.B) == 0 {
				x = jOpt{jB64(nil)}
			}
		case "msg":
			x = jPlus(f.Msg, v.M)
		case "float":
			x = jFloat32(v.U)
		case "bool":
			x = v.U != 0
		case "sint32", "sfixed32", "enum":
			x = json.Number(strconv.FormatInt(int64(int32(v.U)), 10))
		default:
			x = jNum(uint64(v.U))
		}
		if f.Label == "repeated" {
			l, _ := o[f.Name].(jList)
			o[f.Name] = append(l, x)
		} else {
			o[f.Name] = x
		}
	}
	return o
}

// infinite reports values that JSON cannot express.
func infinite(m *pMsg, vals PMsg) bool {
	for _, v := range vals {
		f := m.ByNum[v.N]
		if f.Type == "float" && v.U&0x7F800000 == 0x7F800000 || f.Type == "msg" && infinite(f.Msg, v.M) {
			return true
		}
	}
	return false
}

// jDiff compares a document with what is expected; keys that are not expected do not matter.
func jDiff(at string, want, got any, n *int) string {
	*n++
	bad := func() string { return fmt.Sprintf("%s is %s, want %v", at, head(js(got), 300), want) }
	switch w := want.(type) {
	case jOpt:
		if got == nil {
			return ""
		}
		return jDiff(at, w.v, got, n)
	case jAbsent:
		if got != nil {
			return bad()
		}
	case jObj:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is %s, an object expected", at, head(js(got), 300))
		}
		for k, v := range w {
			if d := jDiff(at+"."+k, v, g[k], n); d != "" {
				return d
			}
		}
	case jList:
		if len(w) == 0 && got == nil {
			return ""
		}
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %s, an array of %d expected", at, head(js(got), 300), len(w))
		}
		for i := range w {
			if d := jDiff(fmt.Sprintf("%s[%d]", at, i), w[i], g[i], n); d != "" {
				return d
			}
		}
	case json.Number:
		if g, ok := got.(json.Number); !ok || g != w {
			return bad()
		}
	case jStr:
		if g, ok := got.(string); !ok || g != string(w) {
			return bad()
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return bad()
		}
	case jText:
		g, ok := got.(string)
		if len(w) == 0 && got == nil {
			return ""
		}
		if !ok || utf8.Valid(w) && strings.TrimRight(g, "\x00") != strings.TrimRight(string(w), "\x00") {
			return fmt.Sprintf("%s is %s, want %q", at, head(js(got), 300), string(w))
		}
	case jB64:
		g, ok := got.(string)
		b, err := base64.StdEncoding.DecodeString(g)
		if !ok || err != nil || !bytes.Equal(b, w) {
			return bad()
		}
	case jFloat32:
		g, ok := got.(json.Number)
		f, err := strconv.ParseFloat(string(g), 32)
		if !ok || err != nil || math.Float32bits(float32(f)) != uint32(w) {
			return fmt.Sprintf("%s is %s, want %v", at, js(got), math.Float32frombits(uint32(w)))
		}
	case jDeg:
		g, ok := got.(json.Number)
		f, err := strconv.ParseFloat(string(g), 64)
		if !ok || err != nil || math.Abs(f/w.full*0xFFFFFFFF-float64(w.raw)) > 1 {
			return fmt.Sprintf("%s is %s, want %v", at, js(got), float64(w.raw)*w.full/0xFFFFFFFF)
		}
	case jTime:
		g, ok := got.(string)
		tm, err := time.Parse(time.RFC3339Nano, g)
		if !ok || err != nil || !tm.Equal(epoch2010.Add(time.Duration(w)*time.Second)) {
			return fmt.Sprintf("%s is %s, want %v", at, js(got), epoch2010.Add(time.Duration(w)*time.Second))
		}
	case jDir:
		if g, ok := got.(json.Number); !ok || string(g) != itoa(int(w.dir)) && string(g) != itoa(int(w.dir|w.dirh<<7)) {
			return bad()
		}
	default:
		panic(harnessPanic{fmt.Sprintf("%T", want), "jDiff"})
	}
	return ""
}

func genJPkg(t *rapid.T) JPkgCase {
	return JPkgCase{genPkg(t, genOpt{Kmh: true, PT: -1, AnyPRV: true}), gBool(t, "built"), gInt(t, 1, 2, "times")}
}

func pkgJSON(r *Rec, c *JPkgCase) *Failure {
	labelPkg(r, &c.P)
	if c.P.subCount() > 0 {
		r.NonTrivial()
	}
	r.LabelIf(c.Built, "built")
	raw := c.P.Bytes()
	var x *egts.Package
	if c.Built {
		x = c.P.toSUT(convOpt{})
	} else {
		x = &egts.Package{}
		if code, err := x.Decode(raw); err != nil {
			return failf("decoding: %d %v", code, err)
		}
	}
	inf := false
	for _, rec := range c.P.recs() {
		for _, s := range rec.Subs {
			if s.Plus != nil {
				vals, _ := plusDecode(plusSchema, s.Plus)
				inf = inf || infinite(plusSchema, vals)
			}
		}
	}
	r.LabelIf(inf, "infinite")
	var doc []byte
	for i := 0; i < c.Times; i++ {
		b, err := x.ToBytes()
		if inf {
			if err == nil && !json.Valid(b) {
				return failf("no error, and not a JSON document: %s", head(string(b), 300))
			}
			return nil
		}
		if err != nil {
			return failf("ToBytes: %v", err)
		}
		if doc != nil && !bytes.Equal(doc, b) {
			return failf("two documents of one packet:\n%s\n%s", head(string(doc), 500), head(string(b), 500))
		}
		doc = b
	}
	n := 0
	if s := diffDoc(doc, &c.P, c.Built, &n); s != "" {
		return failf("%s", s)
	}
	r.Sub(n)
	// the packet has not changed
	if !c.Built {
		y := &egts.Package{}
		y.Decode(raw)
		if !reflect.DeepEqual(x, y) {
			return failf("the packet differs after ToBytes: %+v, before %+v", x, y)
		}
	}
	return nil
}

// KeptPkgs is a sequence of packets whose documents are all kept, and then made again by several goroutines.
type KeptPkgs struct {
	Pkgs    []MPkg
	Workers int
}

func keptPkgs(r *Rec, c *KeptPkgs) *Failure {
	if len(c.Pkgs) > 1 {
		r.NonTrivial()
	}
	xs := make([]*egts.Package, len(c.Pkgs))
	for i := range xs {
		xs[i] = &egts.Package{}
		if code, err := xs[i].Decode(c.Pkgs[i].Bytes()); err != nil {
			return failf("decoding: %d %v", code, err)
		}
	}
	return keptDocs(len(xs), c.Workers, func(i int) ([]byte, error) { return xs[i].ToBytes() }, func(i int, b []byte) string {
		return diffDoc(b, &c.Pkgs[i], false, new(int))
	})
}

// diffDoc reads a document and compares it with the packet.
func diffDoc(doc []byte, p *MPkg, built bool, n *int) string {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var got any
	if err := d.Decode(&got); err != nil {
		return fmt.Sprintf("not a JSON document: %v: %s", err, head(string(doc), 300))
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Sprintf("something follows the JSON document: %s", head(string(doc), 300))
	}
	return jDiff("packet", jPkg(p, built), got, n)
}

func init() {
	register(&Check{ID: "C13", Parts: []*Part{
		part("packet", "the packet has at least one subrecord", 6000, 40000, genJPkg, pkgJSON),
		part("kept", "more than one packet", 600, 4000, func(t *rapid.T) KeptPkgs {
			c := KeptPkgs{Workers: gInt(t, 1, 6, "workers")}
			o := genOpt{Kmh: true, PT: -1, Subs: []byte{0, 1, 5, 7, 9, 16, 17, 18, 19, 20, 24, 25, 27}}
			for i := gInt(t, 1, 5, "packets"); i > 0; i-- {
				c.Pkgs = append(c.Pkgs, genPkg(t, o))
			}
			return c
		}, keptPkgs),
		part("big", "at least one subrecord", 60, 400, func(t *rapid.T) JPkgCase { return JPkgCase{genBig(true)(t).P, gBool(t, "built"), 1} }, pkgJSON),
		part("most", "more than one record or subrecord in the packet", 16, 200, genMost(true), most(func(r *Rec, c *PktCase) *Failure {
			return pkgJSON(r, &JPkgCase{c.P, c.O.Strip, 1})
		})),
	}, Fuzz: []Fuzz{{"FuzzCases", "packet", 0, 90 * time.Second}}})
}
