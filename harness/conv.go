package main

// Mapping between the reference model and the structures of libs/egts.

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

func bits(v byte, n int) string { return fmt.Sprintf("%0*b", n, v) }
func flagStr(c bool) string {
	if c {
		return "1"
	}
	return "0"
}

var epoch2010 = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

func latDeg(raw uint32) float64 { return float64(raw) * 90 / 0xFFFFFFFF }
func lonDeg(raw uint32) float64 { return float64(raw) * 180 / 0xFFFFFFFF }

// ---- model -> code under test ---------------------------------------------------

type convOpt struct {
	Strip    bool // give fixed-length strings without their trailing zero bytes
	ZeroType bool // leave the subrecord type to be inferred
}

func (p *MPkg) toSUT(o convOpt) *egts.Package {
	x := &egts.Package{
		ProtocolVersion: p.PRV, SecurityKeyID: p.SKID, Prefix: bits(p.PRF, 2), Route: flagStr(p.RTE),
		EncryptionAlg: bits(p.ENA, 2), Compression: bits(p.CMP, 1), Priority: bits(p.PR, 2),
		HeaderEncoding: p.HE, PacketIdentifier: p.PID, PacketType: p.PT,
		PeerAddress: p.PRA, RecipientAddress: p.RCA, TimeToLive: p.TTL,
	}
	if p.PT == 1 {
		x.ServicesFrameData = recsToSUT(p.App, o)
	} else if p.Resp != nil {
		r := &egts.PtResponse{ResponsePacketID: p.Resp.RPID, ProcessingResult: p.Resp.PR}
		if len(p.Resp.SDR) > 0 {
			r.SDR = recsToSUT(p.Resp.SDR, o)
		}
		x.ServicesFrameData = r
	}
	return x
}

func recsToSUT(rs []MRec, o convOpt) *egts.ServiceDataSet {
	out := egts.ServiceDataSet{}
	for i := range rs {
		r := &rs[i]
		x := egts.ServiceDataRecord{
			RecordNumber: r.RN, SourceServiceOnDevice: bits(r.SSOD, 1), RecipientServiceOnDevice: bits(r.RSOD, 1),
			Group: bits(r.GRP, 1), RecordProcessingPriority: bits(r.RPP, 2),
			TimeFieldExists: flagStr(r.TM != nil), EventIDFieldExists: flagStr(r.EVID != nil), ObjectIDFieldExists: flagStr(r.OID != nil),
			SourceServiceType: r.SST, RecipientServiceType: r.RST,
		}
		if r.OID != nil {
			x.ObjectIdentifier = *r.OID
		}
		if r.EVID != nil {
			x.EventIdentifier = *r.EVID
		}
		if r.TM != nil {
			x.Time = *r.TM
		}
		for j := range r.Subs {
			s := egts.RecordData{SubrecordType: r.Subs[j].T, SubrecordData: r.Subs[j].toSUT(o)}
			if o.ZeroType && r.Subs[j].T != 20 {
				s.SubrecordType = 0
			}
			x.RecordDataSet = append(x.RecordDataSet, s)
		}
		out = append(out, x)
	}
	return &out
}

func str(b []byte, strip bool) string {
	if strip {
		b = bytes.TrimRight(b, "\x00")
	}
	return string(b)
}

func (s *MSub) toSUT(o convOpt) egts.BinaryData {
	switch {
	case s.Resp != nil:
		return &egts.SrResponse{ConfirmedRecordNumber: s.Resp.CRN, RecordStatus: s.Resp.RST}
	case s.Term != nil:
		t := s.Term
		x := &egts.SrTermIdentity{
			TerminalIdentifier: t.TID, MNE: flagStr(t.MSI != nil), BSE: flagStr(t.BS != nil), NIDE: flagStr(t.NID != nil),
			SSRA: bits(t.SSRA, 1), LNGCE: flagStr(t.LNGC != nil), IMSIE: flagStr(t.IMSI != nil), IMEIE: flagStr(t.IMEI != nil), HDIDE: flagStr(t.HDID != nil),
			IMEI: str(t.IMEI, o.Strip), IMSI: str(t.IMSI, o.Strip), LanguageCode: str(t.LNGC, o.Strip), MobileNumber: str(t.MSI, o.Strip),
		}
		if t.NID != nil {
			x.NetworkIdentifier = append([]byte{}, t.NID...)
		}
		if t.HDID != nil {
			x.HomeDispatcherIdentifier = *t.HDID
		}
		if t.BS != nil {
			x.BufferSize = *t.BS
		}
		return x
	case s.Disp != nil:
		return &egts.SrDispatcherIdentity{DispatcherType: s.Disp.DT, DispatcherID: s.Disp.DID, Description: string(s.Disp.DSCR)}
	case s.Auth != nil:
		return &egts.SrAuthInfo{UserName: string(s.Auth.UNM), UserPassword: string(s.Auth.UPSW), ServerSequence: string(s.Auth.SS)}
	case s.RC != nil:
		return &egts.SrResultCode{ResultCode: *s.RC}
	case s.Pos != nil:
		p := s.Pos
		x := &egts.SrPosData{
			NavigationTime: epoch2010.Add(time.Duration(p.NTM) * time.Second),
			Latitude:       latDeg(p.LAT), Longitude: lonDeg(p.LONG),
			ALTE: flagStr(p.ALTE), LOHS: bits(p.LOHS, 1), LAHS: bits(p.LAHS, 1), MV: bits(p.MV, 1), BB: bits(p.BB, 1),
			CS: bits(p.CS, 1), FIX: bits(p.FIX, 1), VLD: bits(p.VLD, 1),
			DirectionHighestBit: p.DIRH, AltitudeSign: p.ALTS, Speed: p.SPD / 10, Direction: p.DIR | p.DIRH<<7,
			Odometer: p.ODM, DigitalInputs: p.DIN, Source: p.SRC,
		}
		if p.ALTE {
			x.Altitude = p.ALT
		}
		return x
	case s.Ext != nil:
		e := s.Ext
		x := &egts.SrExtPosData{
			NavigationSystemFieldExists: flagStr(e.NS != nil), SatellitesFieldExists: flagStr(e.SAT != nil),
			PdopFieldExists: flagStr(e.PDOP != nil), HdopFieldExists: flagStr(e.HDOP != nil), VdopFieldExists: flagStr(e.VDOP != nil),
		}
		cp := func(d *uint16, v *uint16) {
			if v != nil {
				*d = *v
			}
		}
		cp(&x.VerticalDilutionOfPrecision, e.VDOP)
		cp(&x.HorizontalDilutionOfPrecision, e.HDOP)
		cp(&x.PositionDilutionOfPrecision, e.PDOP)
		cp(&x.NavigationSystem, e.NS)
		if e.SAT != nil {
			x.Satellites = *e.SAT
		}
		return x
	case s.Ad != nil:
		x := &egts.SrAdSensorsData{DigitalOutputs: s.Ad.DOUT}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < 8; i++ {
			v.FieldByName(fmt.Sprintf("DigitalInputsOctetExists%d", i+1)).SetString(flagStr(s.Ad.DIO[i] != nil))
			v.FieldByName(fmt.Sprintf("AnalogSensorFieldExists%d", i+1)).SetString(flagStr(s.Ad.AN[i] != nil))
			if s.Ad.DIO[i] != nil {
				v.FieldByName(fmt.Sprintf("AdditionalDigitalInputsOctet%d", i+1)).SetUint(uint64(*s.Ad.DIO[i]))
			}
			if s.Ad.AN[i] != nil {
				v.FieldByName(fmt.Sprintf("AnalogSensor%d", i+1)).SetUint(uint64(*s.Ad.AN[i]))
			}
		}
		return x
	case s.Cnt != nil:
		x := &egts.SrCountersData{}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < 8; i++ {
			v.FieldByName(fmt.Sprintf("CounterFieldExists%d", i+1)).SetString(flagStr(s.Cnt.CN[i] != nil))
			if s.Cnt.CN[i] != nil {
				v.FieldByName(fmt.Sprintf("Counter%d", i+1)).SetUint(uint64(*s.Cnt.CN[i]))
			}
		}
		return x
	case s.State != nil:
		t := s.State
		return &egts.SrStateData{State: t.ST, MainPowerSourceVoltage: t.MPSV, BackUpBatteryVoltage: t.BBV, InternalBatteryVoltage: t.IBV,
			NMS: bits(t.NMS, 1), IBU: bits(t.IBU, 1), BBU: bits(t.BBU, 1)}
	case s.AbsAn != nil:
		return &egts.SrAbsAnSensData{SensorNumber: s.AbsAn.N, Value: s.AbsAn.V}
	case s.AbsCnt != nil:
		return &egts.SrAbsCntrData{CounterNumber: s.AbsCnt.N, CounterValue: s.AbsCnt.V}
	case s.Liq != nil:
		l := s.Liq
		return &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: bits(l.EF, 1), LiquidLevelSensorValueUnit: bits(l.VU, 2), RawDataFlag: bits(l.RDF, 1),
			LiquidLevelSensorNumber: l.N, ModuleAddress: l.ADDR, LiquidLevelSensorData: l.DATA}
	case s.Plus != nil:
		vals, err := plusDecode(plusSchema, s.Plus)
		if err != nil {
			panic(harnessPanic{err, "plus model"})
		}
		x, err := plusStruct(vals)
		if err != nil {
			return nil
		}
		return x
	}
	panic(harnessPanic{"empty subrecord model", ""})
}

// ---- code under test -> model ------------------------------------------------------

type convErr struct{ s string }

func (c convErr) Error() string { return c.s }
func cerr(f string, a ...any)   { panic(convErr{fmt.Sprintf(f, a...)}) }

func unbits(s string, n int, what string) byte {
	if len(s) != n {
		cerr("%s is %q, %d bits expected", what, s, n)
	}
	v := byte(0)
	for _, c := range s {
		if c != '0' && c != '1' {
			cerr("%s is %q, %d bits expected", what, s, n)
		}
		v = v<<1 | byte(c-'0')
	}
	return v
}

// fromSUT converts a decoded package. lens: also check the length, type and
// checksum fields the decoder fills in.
func fromSUT(x *egts.Package, lens bool) (m MPkg, err error) {
	defer func() {
		if e := recover(); e != nil {
			if ce, ok := e.(convErr); ok {
				err = ce
				return
			}
			panic(e)
		}
	}()
	m = MPkg{PRV: x.ProtocolVersion, SKID: x.SecurityKeyID, PRF: unbits(x.Prefix, 2, "PRF"), RTE: unbits(x.Route, 1, "RTE") == 1,
		ENA: unbits(x.EncryptionAlg, 2, "ENA"), CMP: unbits(x.Compression, 1, "CMP"), PR: unbits(x.Priority, 2, "PR"),
		HE: x.HeaderEncoding, PID: x.PacketIdentifier, PT: x.PacketType, PRA: x.PeerAddress, RCA: x.RecipientAddress, TTL: x.TimeToLive}
	switch d := x.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		if m.PT != 1 {
			cerr("packet type %d holds application data", m.PT)
		}
		m.App = recsFromSUT(d, lens)
	case *egts.PtResponse:
		if m.PT != 0 {
			cerr("packet type %d holds a response", m.PT)
		}
		r := &MResp{RPID: d.ResponsePacketID, PR: d.ProcessingResult}
		switch sdr := d.SDR.(type) {
		case nil:
		case *egts.ServiceDataSet:
			r.SDR = recsFromSUT(sdr, lens)
		default:
			cerr("SDR is a %T", d.SDR)
		}
		m.Resp = r
	default:
		cerr("SFRD is a %T", x.ServicesFrameData)
	}
	if lens {
		body := m.body()
		hl := byte(11)
		if m.RTE {
			hl = 16
		}
		f := m.frame(body)
		if x.HeaderLength != hl || int(x.FrameDataLength) != len(body) || x.HeaderCheckSum != f[hl-1] {
			// latitude and longitude are converted back exactly, so the bytes are the original ones
			cerr("HL=%d FDL=%d HCS=%#x, %d %d %#x expected", x.HeaderLength, x.FrameDataLength, x.HeaderCheckSum, hl, len(body), f[hl-1])
		}
	}
	return m, nil
}

func opt32(flag string, v uint32, what string) *uint32 {
	if unbits(flag, 1, what) == 1 {
		return &v
	}
	if v != 0 {
		cerr("%s is absent but has value %d", what, v)
	}
	return nil
}
func opt16(flag string, v uint16, what string) *uint16 {
	if unbits(flag, 1, what) == 1 {
		return &v
	}
	if v != 0 {
		cerr("%s is absent but has value %d", what, v)
	}
	return nil
}
func opt8(flag string, v uint8, what string) *uint8 {
	if unbits(flag, 1, what) == 1 {
		return &v
	}
	if v != 0 {
		cerr("%s is absent but has value %d", what, v)
	}
	return nil
}
func optStr(flag string, v string, what string) []byte {
	if unbits(flag, 1, what) == 1 {
		return append([]byte{}, v...)
	}
	if v != "" {
		cerr("%s is absent but has value %q", what, v)
	}
	return nil
}

func recsFromSUT(d *egts.ServiceDataSet, lens bool) []MRec {
	var out []MRec
	for i := range *d {
		x := &(*d)[i]
		r := MRec{RN: x.RecordNumber, SSOD: unbits(x.SourceServiceOnDevice, 1, "SSOD"), RSOD: unbits(x.RecipientServiceOnDevice, 1, "RSOD"),
			GRP: unbits(x.Group, 1, "GRP"), RPP: unbits(x.RecordProcessingPriority, 2, "RPP"),
			OID: opt32(x.ObjectIDFieldExists, x.ObjectIdentifier, "OID"), EVID: opt32(x.EventIDFieldExists, x.EventIdentifier, "EVID"),
			TM: opt32(x.TimeFieldExists, x.Time, "TM"), SST: x.SourceServiceType, RST: x.RecipientServiceType}
		rl := 0
		for j := range x.RecordDataSet {
			s := &x.RecordDataSet[j]
			ms := subFromSUT(s.SubrecordType, s.SubrecordData)
			r.Subs = append(r.Subs, ms)
			l := len(ms.Data())
			if lens && int(s.SubrecordLength) != l {
				cerr("SRL of record %d subrecord %d is %d, %d expected", i, j, s.SubrecordLength, l)
			}
			rl += l + 3
		}
		if lens && int(x.RecordLength) != rl {
			cerr("RL of record %d is %d, %d expected", i, x.RecordLength, rl)
		}
		out = append(out, r)
	}
	return out
}

func subFromSUT(t byte, d egts.BinaryData) MSub {
	s := MSub{T: t}
	want := map[byte]bool{}
	typ := func(ts ...byte) {
		for _, v := range ts {
			want[v] = true
		}
	}
	switch x := d.(type) {
	case *egts.SrResponse:
		typ(0)
		s.Resp = &MSResp{x.ConfirmedRecordNumber, x.RecordStatus}
	case *egts.SrTermIdentity:
		typ(1)
		m := &MTerm{TID: x.TerminalIdentifier, SSRA: unbits(x.SSRA, 1, "SSRA"),
			HDID: opt16(x.HDIDE, x.HomeDispatcherIdentifier, "HDID"), IMEI: optStr(x.IMEIE, x.IMEI, "IMEI"), IMSI: optStr(x.IMSIE, x.IMSI, "IMSI"),
			LNGC: optStr(x.LNGCE, x.LanguageCode, "LNGC"), NID: optStr(x.NIDE, string(x.NetworkIdentifier), "NID"),
			BS: opt16(x.BSE, x.BufferSize, "BS"), MSI: optStr(x.MNE, x.MobileNumber, "MSISDN")}
		pad := func(b []byte, n int) []byte {
			for b != nil && len(b) < n {
				b = append(b, 0)
			}
			return b
		}
		m.IMEI, m.IMSI, m.LNGC, m.MSI = pad(m.IMEI, 15), pad(m.IMSI, 16), pad(m.LNGC, 3), pad(m.MSI, 15)
		s.Term = m
	case *egts.SrDispatcherIdentity:
		typ(5)
		s.Disp = &MDisp{DT: x.DispatcherType, DID: x.DispatcherID, DSCR: []byte(x.Description)}
	case *egts.SrAuthInfo:
		typ(7)
		s.Auth = &MAuth{UNM: []byte(x.UserName), UPSW: []byte(x.UserPassword), SS: []byte(x.ServerSequence)}
	case *egts.SrResultCode:
		typ(9)
		v := x.ResultCode
		s.RC = &v
	case *egts.StorageRecord:
		typ(15)
		v, err := plusModel(x)
		if err != nil {
			cerr("%v", err)
		}
		s.Plus = plusEncode(plusSchema, v)
	case *egts.SrPosData:
		typ(16)
		p := &MPos{ALTE: unbits(x.ALTE, 1, "ALTE") == 1, LOHS: unbits(x.LOHS, 1, "LOHS"), LAHS: unbits(x.LAHS, 1, "LAHS"), MV: unbits(x.MV, 1, "MV"),
			BB: unbits(x.BB, 1, "BB"), CS: unbits(x.CS, 1, "CS"), FIX: unbits(x.FIX, 1, "FIX"), VLD: unbits(x.VLD, 1, "VLD"),
			SPD: x.Speed * 10, ALTS: x.AltitudeSign, DIRH: x.DirectionHighestBit, DIR: x.Direction &^ (x.DirectionHighestBit << 7),
			ODM: x.Odometer, DIN: x.DigitalInputs, SRC: x.Source, ALT: x.Altitude}
		if x.DirectionHighestBit > 1 || x.AltitudeSign > 1 || x.Speed > 1638 || x.Odometer > 0xFFFFFF || x.Altitude > 0xFFFFFF {
			cerr("position value out of its field: %+v", x)
		}
		sec := x.NavigationTime.Unix() - epoch2010.Unix()
		if sec < 0 || sec > math.MaxUint32 || x.NavigationTime.Nanosecond() != 0 || x.NavigationTime.Location() != time.UTC {
			cerr("navigation time %v", x.NavigationTime)
		}
		p.NTM = uint32(sec)
		la, lo := math.Round(x.Latitude/90*0xFFFFFFFF), math.Round(x.Longitude/180*0xFFFFFFFF)
		if !(la >= 0 && la <= 0xFFFFFFFF && lo >= 0 && lo <= 0xFFFFFFFF) {
			cerr("coordinates %v %v", x.Latitude, x.Longitude)
		}
		p.LAT, p.LONG = uint32(la), uint32(lo)
		if !p.ALTE && p.ALT != 0 {
			cerr("ALT is absent but has value %d", p.ALT)
		}
		s.Pos = p
	case *egts.SrExtPosData:
		typ(17)
		s.Ext = &MExt{VDOP: opt16(x.VdopFieldExists, x.VerticalDilutionOfPrecision, "VDOP"), HDOP: opt16(x.HdopFieldExists, x.HorizontalDilutionOfPrecision, "HDOP"),
			PDOP: opt16(x.PdopFieldExists, x.PositionDilutionOfPrecision, "PDOP"), SAT: opt8(x.SatellitesFieldExists, x.Satellites, "SAT"),
			NS: opt16(x.NavigationSystemFieldExists, x.NavigationSystem, "NS")}
	case *egts.SrAdSensorsData:
		typ(18)
		m := &MAd{DOUT: x.DigitalOutputs}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < 8; i++ {
			m.DIO[i] = opt8(v.FieldByName(fmt.Sprintf("DigitalInputsOctetExists%d", i+1)).String(),
				uint8(v.FieldByName(fmt.Sprintf("AdditionalDigitalInputsOctet%d", i+1)).Uint()), fmt.Sprintf("ADIO%d", i+1))
			m.AN[i] = opt32(v.FieldByName(fmt.Sprintf("AnalogSensorFieldExists%d", i+1)).String(),
				uint32(v.FieldByName(fmt.Sprintf("AnalogSensor%d", i+1)).Uint()), fmt.Sprintf("ANS%d", i+1))
		}
		s.Ad = m
	case *egts.SrCountersData:
		typ(19)
		m := &MCnt{}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < 8; i++ {
			m.CN[i] = opt32(v.FieldByName(fmt.Sprintf("CounterFieldExists%d", i+1)).String(),
				uint32(v.FieldByName(fmt.Sprintf("Counter%d", i+1)).Uint()), fmt.Sprintf("CN%d", i+1))
		}
		s.Cnt = m
	case *egts.SrStateData:
		typ(20, 21)
		s.State = &MState{ST: x.State, MPSV: x.MainPowerSourceVoltage, BBV: x.BackUpBatteryVoltage, IBV: x.InternalBatteryVoltage,
			NMS: unbits(x.NMS, 1, "NMS"), IBU: unbits(x.IBU, 1, "IBU"), BBU: unbits(x.BBU, 1, "BBU")}
	case *egts.SrAbsAnSensData:
		typ(24)
		s.AbsAn = &MNum{x.SensorNumber, x.Value}
	case *egts.SrAbsCntrData:
		typ(25)
		s.AbsCnt = &MNum{x.CounterNumber, x.CounterValue}
	case *egts.SrLiquidLevelSensor:
		typ(27)
		s.Liq = &MLiq{EF: unbits(x.LiquidLevelSensorErrorFlag, 1, "LLSEF"), VU: unbits(x.LiquidLevelSensorValueUnit, 2, "LLSVU"),
			RDF: unbits(x.RawDataFlag, 1, "RDF"), N: x.LiquidLevelSensorNumber, ADDR: x.ModuleAddress, DATA: x.LiquidLevelSensorData}
	default:
		cerr("subrecord data is a %T", d)
	}
	if !want[t] {
		cerr("subrecord type %d holds a %T", t, d)
	}
	return s
}

// subModel converts one section outside of a record.
func subModel(t byte, d egts.BinaryData) (s MSub, err error) {
	defer func() {
		if e := recover(); e != nil {
			if ce, ok := e.(convErr); ok {
				err = ce
				return
			}
			panic(e)
		}
	}()
	return subFromSUT(t, d), nil
}

// newSection gives an empty structure for a subrecord type.
func newSection(t byte) egts.BinaryData {
	switch t {
	case 0:
		return &egts.SrResponse{}
	case 1:
		return &egts.SrTermIdentity{}
	case 5:
		return &egts.SrDispatcherIdentity{}
	case 7:
		return &egts.SrAuthInfo{}
	case 9:
		return &egts.SrResultCode{}
	case 15:
		return &egts.StorageRecord{}
	case 16:
		return &egts.SrPosData{}
	case 17:
		return &egts.SrExtPosData{}
	case 18:
		return &egts.SrAdSensorsData{}
	case 19:
		return &egts.SrCountersData{}
	case 20, 21:
		return &egts.SrStateData{}
	case 24:
		return &egts.SrAbsAnSensData{}
	case 25:
		return &egts.SrAbsCntrData{}
	case 27:
		return &egts.SrLiquidLevelSensor{}
	}
	panic(harnessPanic{fmt.Sprintf("no section %d", t), ""})
}

// ---- comparison ----------------------------------------------------------------------

type cmpOpt struct {
	Unit     uint32 // tolerance of LAT and LONG in wire units
	WholeKmh bool   // compare speed in whole km/h
}

func absDiff(a, b uint32) uint32 {
	if a > b {
		return a - b
	}
	return b - a
}

// diffPkg describes the first difference between two models ("" when equal).
func diffPkg(a, b *MPkg, o cmpOpt) string {
	x, y := *a, *b
	x.App, x.Resp, x.RawBody, y.App, y.Resp, y.RawBody = nil, nil, nil, nil, nil, nil
	if !x.RTE {
		x.PRA, x.RCA, x.TTL = 0, 0, 0
	}
	if !y.RTE {
		y.PRA, y.RCA, y.TTL = 0, 0, 0
	}
	if !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("header: %s, %s expected", js(y), js(x))
	}
	if (a.Resp == nil) != (b.Resp == nil) {
		return fmt.Sprintf("response part: %v, %v expected", b.Resp != nil, a.Resp != nil)
	}
	if a.Resp != nil {
		if a.Resp.RPID != b.Resp.RPID || a.Resp.PR != b.Resp.PR {
			return fmt.Sprintf("response: RPID=%d PR=%d, %d %d expected", b.Resp.RPID, b.Resp.PR, a.Resp.RPID, a.Resp.PR)
		}
		return diffRecs(a.Resp.SDR, b.Resp.SDR, o)
	}
	return diffRecs(a.App, b.App, o)
}

func diffRecs(a, b []MRec, o cmpOpt) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d records, %d expected", len(b), len(a))
	}
	for i := range a {
		x, y := a[i], b[i]
		x.Subs, y.Subs = nil, nil
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("record %d: %s, %s expected", i, js(y), js(x))
		}
		if len(a[i].Subs) != len(b[i].Subs) {
			return fmt.Sprintf("record %d: %d subrecords, %d expected", i, len(b[i].Subs), len(a[i].Subs))
		}
		for j := range a[i].Subs {
			if d := diffSub(&a[i].Subs[j], &b[i].Subs[j], o); d != "" {
				return fmt.Sprintf("record %d subrecord %d: %s", i, j, d)
			}
		}
	}
	return ""
}

func diffSub(a, b *MSub, o cmpOpt) string {
	x, y := *a, *b
	if x.Pos != nil && y.Pos != nil {
		p, q := *x.Pos, *y.Pos
		if absDiff(p.LAT, q.LAT) <= o.Unit {
			q.LAT = p.LAT
		}
		if absDiff(p.LONG, q.LONG) <= o.Unit {
			q.LONG = p.LONG
		}
		if p.DIRH == 1 && q.DIRH == 1 { // headings end at 359 degrees: the library folds the high bit into bit 7
			p.DIR, q.DIR = p.DIR&0x7F, q.DIR&0x7F
		}
		if o.WholeKmh && p.SPD/10 == q.SPD/10 {
			q.SPD = p.SPD
		}
		if !p.ALTE {
			p.ALT = 0
		}
		x.Pos, y.Pos = &p, &q
	}
	if x.Term != nil && y.Term != nil {
		p, q := trimTerm(*x.Term), trimTerm(*y.Term)
		x.Term, y.Term = &p, &q
	}
	if x.T != y.T || !bytes.Equal(x.Bytes(), y.Bytes()) {
		return fmt.Sprintf("%s, %s expected", js(b), js(a))
	}
	return ""
}

// trimTerm drops the zero padding that fixed-length strings may lose.
func trimTerm(t MTerm) MTerm {
	f := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, bytes.TrimRight(b, "\x00")...)
	}
	t.IMEI, t.IMSI, t.LNGC, t.MSI = f(t.IMEI), f(t.IMSI), f(t.LNGC), f(t.MSI)
	return t
}
