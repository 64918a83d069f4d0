package main

// Schema-driven model of EGTS_PLUS data: an own parser of the published .proto
// (frozen copy in schema.proto), an own protobuf wire encoder/decoder, and the
// mapping onto the generated Go structures by field name.

import (
	_ "embed"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

//go:embed schema.proto
var schemaText string

type pField struct {
	Name  string
	Num   int
	Label string // required, optional, repeated
	Type  string // uint32 sint32 bool fixed32 sfixed32 float bytes enum msg
	Msg   *pMsg
	Enum  []int32
}
type pMsg struct {
	Name   string
	Fields []*pField // by number
	ByNum  map[int]*pField
}

var plusSchema = parseSchema(schemaText)

func parseSchema(text string) *pMsg {
	text = regexp.MustCompile(`//[^\n]*`).ReplaceAllString(text, "")
	msgs := map[string]*pMsg{}
	enums := map[string][]int32{}
	tok := regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9.]*|\d+|[{}=;]|"[^"]*"`).FindAllString(text, -1)
	var cur *pMsg
	for i := 0; i < len(tok); {
		switch tok[i] {
		case "message":
			cur = &pMsg{Name: tok[i+1], ByNum: map[int]*pField{}}
			msgs[cur.Name] = cur
			i += 3
		case "enum":
			name := tok[i+1]
			i += 3
			for tok[i] != "}" {
				var v int32
				fmt.Sscan(tok[i+2], &v)
				enums[name] = append(enums[name], v)
				i += 4
			}
			i++
		case "required", "optional", "repeated":
			f := &pField{Label: tok[i], Type: strings.TrimPrefix(tok[i+1], "nv."), Name: tok[i+2]}
			fmt.Sscan(tok[i+4], &f.Num)
			cur.Fields = append(cur.Fields, f)
			cur.ByNum[f.Num] = f
			i += 6
		case "syntax", "package":
			for tok[i] != ";" {
				i++
			}
			i++
		default:
			i++
		}
	}
	for _, m := range msgs {
		sort.Slice(m.Fields, func(a, b int) bool { return m.Fields[a].Num < m.Fields[b].Num })
		for _, f := range m.Fields {
			if x := msgs[f.Type]; x != nil {
				f.Msg, f.Type = x, "msg"
			} else if e := enums[f.Type]; e != nil {
				f.Enum, f.Type = e, "enum"
			}
		}
	}
	return msgs["storage_record"]
}

// PVal is one field occurrence: U for numbers (raw 32-bit pattern), B for bytes, M for messages.
type PVal struct {
	N int
	U uint32 `json:",omitempty"`
	B []byte `json:",omitempty"`
	M PMsg   `json:",omitempty"`
}
type PMsg []PVal

func wireType(f *pField) int {
	switch f.Type {
	case "fixed32", "sfixed32", "float":
		return 5
	case "bytes", "msg":
		return 2
	}
	return 0
}

func putVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func plusEncode(m *pMsg, vals PMsg) []byte {
	var b []byte
	for _, v := range vals {
		f := m.ByNum[v.N]
		wt := wireType(f)
		b = putVarint(b, uint64(f.Num)<<3|uint64(wt))
		switch f.Type {
		case "fixed32", "sfixed32", "float":
			b = append(b, le32(v.U)...)
		case "bytes":
			b = putVarint(b, uint64(len(v.B)))
			b = append(b, v.B...)
		case "msg":
			x := plusEncode(f.Msg, v.M)
			b = putVarint(b, uint64(len(x)))
			b = append(b, x...)
		case "sint32":
			s := int32(v.U)
			b = putVarint(b, uint64(uint32(s<<1)^uint32(s>>31)))
		case "enum":
			b = putVarint(b, uint64(int64(int32(v.U))))
		default: // uint32, bool
			b = putVarint(b, uint64(v.U))
		}
	}
	return b
}

// plusDecode parses b against the schema. errBody: definitely refused
// (truncated or a required field missing); errLoose: legal but not canonical.
func plusDecode(m *pMsg, b []byte) (out PMsg, err error) {
	var loose error
	odd := func(s string) { loose = fmt.Errorf("%w: plus: %s", errLoose, s) }
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; ; i++ {
			if len(b) == 0 {
				return 0, false
			}
			c := b[0]
			b = b[1:]
			if i < 10 {
				v |= uint64(c&0x7F) << (7 * uint(i))
			} else {
				odd("overlong varint")
			}
			if c < 0x80 {
				if i > 0 && c == 0 {
					odd("non-minimal varint")
				}
				return v, true
			}
		}
	}
	short := fmt.Errorf("%w: plus: truncated", errBody)
	prev := 0
	seen := map[int]bool{}
	for len(b) > 0 {
		tag, ok := varint()
		if !ok {
			return out, short
		}
		n, wt := int(tag>>3), int(tag&7)
		if tag>>3 == 0 || tag>>3 > 1<<29-1 {
			return out, fmt.Errorf("%w: plus: field number", errLoose)
		}
		var v PVal
		v.N = n
		var raw uint64
		var data []byte
		switch wt {
		case 0:
			raw, ok = varint()
			if !ok {
				return out, short
			}
		case 1:
			if len(b) < 8 {
				return out, short
			}
			b = b[8:]
		case 2:
			l, ok := varint()
			if !ok || l > uint64(len(b)) {
				return out, short
			}
			data, b = b[:l], b[l:]
		case 5:
			if len(b) < 4 {
				return out, short
			}
			raw = uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
			b = b[4:]
		default:
			return out, fmt.Errorf("%w: plus: wire type %d", errLoose, wt)
		}
		f := m.ByNum[n]
		if f == nil || wireType(f) != wt {
			odd("unknown field")
			continue
		}
		if n < prev {
			odd("field order")
		}
		prev = n
		if seen[n] && f.Label != "repeated" {
			odd("repeated scalar")
		}
		seen[n] = true
		switch f.Type {
		case "bytes":
			v.B = append([]byte{}, data...)
		case "msg":
			v.M, err = plusDecode(f.Msg, data)
			if err != nil && !isErr(err, errLoose) {
				return out, err
			}
			if err != nil {
				loose = err
			}
		case "sint32":
			u := uint32(raw)
			v.U = u>>1 ^ -(u & 1)
			if raw > math.MaxUint32 {
				odd("wide value")
			}
		case "enum":
			v.U = uint32(raw)
			known := false
			for _, e := range f.Enum {
				known = known || int64(e) == int64(raw)
			}
			if !known {
				odd("unknown enum value")
			}
		case "bool":
			v.U = uint32(raw)
			if raw > 1 {
				odd("bool value")
			}
		default:
			v.U = uint32(raw)
			if raw > math.MaxUint32 {
				odd("wide value")
			}
			if f.Type == "float" && v.U&0x7F800000 == 0x7F800000 && v.U&0x7FFFFF != 0 {
				odd("NaN")
			}
		}
		out = append(out, v)
	}
	for _, f := range m.Fields {
		if f.Label == "required" && !seen[f.Num] {
			return out, fmt.Errorf("%w: plus: required field %s missing", errBody, f.Name)
		}
	}
	return out, loose
}

func plusValid(b []byte) error {
	_, err := plusDecode(plusSchema, b)
	return err
}

func goName(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			if i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				b.WriteByte('_')
			}
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		b.WriteByte(c)
	}
	return b.String()
}

// plusToGo fills the generated structure v (a struct value) from vals.
func plusToGo(m *pMsg, vals PMsg, v reflect.Value) error {
	for _, x := range vals {
		f := m.ByNum[x.N]
		fv := v.FieldByName(goName(f.Name))
		if !fv.IsValid() {
			return fmt.Errorf("no Go field for %s.%s", m.Name, f.Name)
		}
		t := fv.Type()
		set := func(elem reflect.Value) error {
			switch elem.Kind() {
			case reflect.Uint32:
				elem.SetUint(uint64(x.U))
			case reflect.Int32:
				elem.SetInt(int64(int32(x.U)))
			case reflect.Bool:
				elem.SetBool(x.U != 0)
			case reflect.Float32:
				elem.SetFloat(float64(math.Float32frombits(x.U)))
			case reflect.Struct:
				return plusToGo(f.Msg, x.M, elem)
			default:
				return fmt.Errorf("%s.%s has Go type %v", m.Name, f.Name, t)
			}
			return nil
		}
		switch {
		case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
			b := append([]byte{}, x.B...)
			fv.SetBytes(b)
		case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Ptr:
			e := reflect.New(t.Elem().Elem())
			if err := set(e.Elem()); err != nil {
				return err
			}
			fv.Set(reflect.Append(fv, e))
		case t.Kind() == reflect.Slice:
			e := reflect.New(t.Elem()).Elem()
			if err := set(e); err != nil {
				return err
			}
			fv.Set(reflect.Append(fv, e))
		case t.Kind() == reflect.Ptr:
			e := reflect.New(t.Elem())
			if err := set(e.Elem()); err != nil {
				return err
			}
			fv.Set(e)
		default:
			return fmt.Errorf("%s.%s has Go type %v", m.Name, f.Name, t)
		}
	}
	return nil
}

// plusFromGo reads the generated structure back, in field-number order.
func plusFromGo(m *pMsg, v reflect.Value) (PMsg, error) {
	var out PMsg
	for _, f := range m.Fields {
		fv := v.FieldByName(goName(f.Name))
		if !fv.IsValid() {
			return nil, fmt.Errorf("no Go field for %s.%s", m.Name, f.Name)
		}
		t := fv.Type()
		get := func(e reflect.Value) error {
			x := PVal{N: f.Num}
			var want string
			switch e.Kind() {
			case reflect.Uint32:
				x.U = uint32(e.Uint())
				want = "uint32 fixed32"
			case reflect.Int32:
				x.U = uint32(int32(e.Int()))
				want = "sint32 sfixed32 enum"
			case reflect.Bool:
				if e.Bool() {
					x.U = 1
				}
				want = "bool"
			case reflect.Float32:
				x.U = math.Float32bits(float32(e.Float()))
				want = "float"
			case reflect.Struct:
				var err error
				if x.M, err = plusFromGo(f.Msg, e); err != nil {
					return err
				}
				want = "msg"
			}
			if !strings.Contains(want, f.Type) {
				return fmt.Errorf("%s.%s has Go type %v", m.Name, f.Name, t)
			}
			out = append(out, x)
			return nil
		}
		var err error
		switch {
		case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
			if !fv.IsNil() {
				out = append(out, PVal{N: f.Num, B: append([]byte{}, fv.Bytes()...)})
			}
		case t.Kind() == reflect.Slice:
			for i := 0; i < fv.Len() && err == nil; i++ {
				e := fv.Index(i)
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						err = fmt.Errorf("nil element in %s.%s", m.Name, f.Name)
						break
					}
					e = e.Elem()
				}
				err = get(e)
			}
		case t.Kind() == reflect.Ptr:
			if !fv.IsNil() {
				err = get(fv.Elem())
			}
		default:
			err = fmt.Errorf("%s.%s has Go type %v", m.Name, f.Name, t)
		}
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

func plusStruct(vals PMsg) (*egts.StorageRecord, error) {
	s := &egts.StorageRecord{}
	err := plusToGo(plusSchema, vals, reflect.ValueOf(s).Elem())
	return s, err
}

func plusModel(s *egts.StorageRecord) (PMsg, error) {
	return plusFromGo(plusSchema, reflect.ValueOf(s).Elem())
}
