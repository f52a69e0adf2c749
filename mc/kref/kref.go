// Package kref is an independent, schema driven implementation of the Kafka
// wire protocol, written from the protocol definition.  It is the oracle for
// everything the client puts on or takes from the wire.
package kref

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// M is a struct value.
type M = map[string]any

// A is an array value.
type A = []any

// Field of a schema.
type Field struct {
	Name     string
	Type     string // bool i8 i16 i32 i64 string bytes array
	Nullable bool
	Elem     *Struct // array of struct
	ElemType string  // array of primitive
	Min, Max int
}

// Struct is a list of fields.
type Struct struct{ Fields []*Field }

// API describes one request kind.
type API struct {
	Key       int
	Name      string
	Flex      int // first flexible version
	Req, Resp *Struct
	Versions  []int // versions the client may use (ascending)
}

// FlexAt reports whether version v is flexible.
func (a *API) FlexAt(v int) bool { return v >= a.Flex }

// ---- schema DSL -----------------------------------------------------------

type parser struct {
	toks []string
	i    int
}

func tokenize(s string) []string {
	for _, c := range []string{"[", "]"} {
		s = strings.ReplaceAll(s, c, " "+c+" ")
	}
	return strings.Fields(s)
}

func parseStruct(s string) *Struct {
	p := &parser{toks: tokenize(s)}
	st := p.fields()
	if p.i != len(p.toks) {
		panic("kref schema: trailing tokens in " + s)
	}
	return st
}

// fields: name:type[@vers] | name: [ fields ] [@vers] | name:? [ ... ]
func (p *parser) fields() *Struct {
	st := &Struct{}
	for p.i < len(p.toks) && p.toks[p.i] != "]" {
		t := p.toks[p.i]
		p.i++
		c := strings.Index(t, ":")
		f := &Field{Name: t[:c], Max: 1 << 20}
		ty := t[c+1:]
		if strings.HasPrefix(ty, "?") {
			f.Nullable = true
			ty = ty[1:]
		}
		if ty == "" {
			if p.toks[p.i] != "[" {
				panic("kref schema: expected [ after " + f.Name)
			}
			p.i++
			f.Type = "array"
			if n := p.toks[p.i]; !strings.Contains(n, ":") && n != "]" {
				f.ElemType = n
				p.i++
			} else {
				f.Elem = p.fields()
			}
			if p.toks[p.i] != "]" {
				panic("kref schema: expected ] for " + f.Name)
			}
			p.i++
			if p.i < len(p.toks) && strings.HasPrefix(p.toks[p.i], "@") {
				f.vers(p.toks[p.i][1:])
				p.i++
			}
		} else {
			if a := strings.Index(ty, "@"); a >= 0 {
				f.vers(ty[a+1:])
				ty = ty[:a]
			}
			f.Type = ty
		}
		st.Fields = append(st.Fields, f)
	}
	return st
}

func (f *Field) vers(s string) {
	if strings.HasSuffix(s, "+") {
		f.Min, _ = strconv.Atoi(s[:len(s)-1])
		return
	}
	if i := strings.Index(s, "-"); i >= 0 {
		f.Min, _ = strconv.Atoi(s[:i])
		f.Max, _ = strconv.Atoi(s[i+1:])
		return
	}
	panic("kref schema: versions " + s)
}

// In reports whether the field exists in version v.
func (f *Field) In(v int) bool { return v >= f.Min && v <= f.Max }

// ---- encoding ---------------------------------------------------------------

func toInt(v any) int64 {
	switch n := v.(type) {
	case nil:
		return 0
	case int:
		return int64(n)
	case int8:
		return int64(n)
	case int16:
		return int64(n)
	case int32:
		return int64(n)
	case int64:
		return n
	case uint8:
		return int64(n)
	case uint16:
		return int64(n)
	case uint32:
		return int64(n)
	case uint64:
		return int64(n)
	case bool:
		if n {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("kref: not an integer: %T %v", v, v))
}

// Enc is an encoder with optional marks of where lengths, counts and markers lie.
type Enc struct {
	B     []byte
	Marks []Mark
	// ExtraTags adds an unknown tagged field to every tag section.
	ExtraTags bool
}

// Mark is the position of one field in the encoded bytes.
type Mark struct {
	Off, Len int
	Kind     string // len, count, tag, or the primitive type
	Path     string
}

func (e *Enc) mark(n int, kind, path string) {
	e.Marks = append(e.Marks, Mark{len(e.B), n, kind, path})
}

func uvarint(n uint64) []byte { return binary.AppendUvarint(nil, n) }

func (e *Enc) i16(v int16) { e.B = binary.BigEndian.AppendUint16(e.B, uint16(v)) }
func (e *Enc) i32(v int32) { e.B = binary.BigEndian.AppendUint32(e.B, uint32(v)) }
func (e *Enc) i64(v int64) { e.B = binary.BigEndian.AppendUint64(e.B, uint64(v)) }

func (e *Enc) length(flex bool, n int, short bool, kind, path string) { // n<0: null
	if flex {
		b := uvarint(uint64(n + 1))
		e.mark(len(b), kind+"c", path)
		e.B = append(e.B, b...)
		return
	}
	if short {
		e.mark(2, kind+"2", path)
		e.i16(int16(n))
	} else {
		e.mark(4, kind+"4", path)
		e.i32(int32(n))
	}
}

func (e *Enc) prim(ty string, v any, flex bool, path string) {
	switch ty {
	case "bool", "i8":
		e.mark(1, ty, path)
		e.B = append(e.B, byte(toInt(v)))
	case "i16":
		e.mark(2, ty, path)
		e.i16(int16(toInt(v)))
	case "i32":
		e.mark(4, ty, path)
		e.i32(int32(toInt(v)))
	case "i64":
		e.mark(8, ty, path)
		e.i64(toInt(v))
	case "string":
		switch s := v.(type) {
		case nil:
			e.length(flex, -1, true, "len", path)
		case string:
			e.length(flex, len(s), true, "len", path)
			e.B = append(e.B, s...)
		case *string:
			if s == nil {
				e.length(flex, -1, true, "len", path)
			} else {
				e.length(flex, len(*s), true, "len", path)
				e.B = append(e.B, *s...)
			}
		default:
			panic(fmt.Sprintf("kref: %s: want string, got %T", path, v))
		}
	case "bytes":
		b, _ := v.([]byte)
		if b == nil {
			e.length(flex, -1, false, "len", path)
		} else {
			e.length(flex, len(b), false, "len", path)
			e.B = append(e.B, b...)
		}
	default:
		panic("kref: type " + ty)
	}
}

func zero(f *Field) any {
	if f.Nullable {
		return nil
	}
	switch f.Type {
	case "string":
		return ""
	case "bytes":
		return []byte{}
	case "array":
		return A{}
	}
	return int64(0)
}

// Struct encodes one struct value.
func (e *Enc) Struct(st *Struct, ver int, flex bool, v M, path string) {
	for _, f := range st.Fields {
		if !f.In(ver) {
			continue
		}
		val, ok := v[f.Name]
		if !ok {
			val = zero(f)
		}
		e.field(f, ver, flex, val, path+"."+f.Name)
	}
	if flex {
		e.tags(path)
	}
}

func (e *Enc) tags(path string) {
	e.mark(1, "tag", path+".tags")
	if e.ExtraTags {
		e.B = append(e.B, 2, 100, 3, 'a', 'b', 'c', 101, 0)
	} else {
		e.B = append(e.B, 0)
	}
}

func (e *Enc) field(f *Field, ver int, flex bool, val any, path string) {
	if f.Type != "array" {
		if val == nil && !f.Nullable && (f.Type == "string") {
			panic("kref: null for non-nullable " + path)
		}
		e.prim(f.Type, val, flex, path)
		return
	}
	if val == nil {
		if !f.Nullable {
			panic("kref: null for non-nullable " + path)
		}
		e.length(flex, -1, false, "count", path)
		return
	}
	arr := ToA(val)
	e.length(flex, len(arr), false, "count", path)
	for i, x := range arr {
		p := fmt.Sprintf("%s[%d]", path, i)
		if f.Elem != nil {
			e.Struct(f.Elem, ver, flex, x.(M), p)
		} else {
			e.prim(f.ElemType, x, flex, p)
		}
	}
}

// ToA converts common slices to A.
func ToA(v any) A {
	switch a := v.(type) {
	case A:
		return a
	case []M:
		r := make(A, len(a))
		for i := range a {
			r[i] = a[i]
		}
		return r
	case []int32:
		r := make(A, len(a))
		for i := range a {
			r[i] = int64(a[i])
		}
		return r
	case []int64:
		r := make(A, len(a))
		for i := range a {
			r[i] = a[i]
		}
		return r
	case []int:
		r := make(A, len(a))
		for i := range a {
			r[i] = int64(a[i])
		}
		return r
	case []string:
		r := make(A, len(a))
		for i := range a {
			r[i] = a[i]
		}
		return r
	}
	panic(fmt.Sprintf("kref: not an array: %T", v))
}

// ---- decoding ---------------------------------------------------------------

type dec struct {
	b   []byte
	off int
	lax bool
}

type decErr struct{ msg string }

func (d *dec) fail(format string, a ...any) {
	panic(decErr{fmt.Sprintf(format, a...) + fmt.Sprintf(" (at byte %d of %d)", d.off, len(d.b))})
}

func (d *dec) take(n int, path string) []byte {
	if n < 0 || d.off+n > len(d.b) {
		d.fail("%s: need %d bytes, have %d", path, n, len(d.b)-d.off)
	}
	r := d.b[d.off : d.off+n]
	d.off += n
	return r
}

func (d *dec) uvarint(path string) uint64 {
	v, n := binary.Uvarint(d.b[d.off:])
	if n <= 0 {
		d.fail("%s: bad uvarint", path)
	}
	d.off += n
	return v
}

func (d *dec) length(flex, short bool, path string) int {
	if flex {
		n := d.uvarint(path)
		if n > math.MaxInt32 {
			d.fail("%s: length %d", path, n)
		}
		return int(n) - 1
	}
	if short {
		return int(int16(binary.BigEndian.Uint16(d.take(2, path))))
	}
	return int(int32(binary.BigEndian.Uint32(d.take(4, path))))
}

func (d *dec) prim(ty string, nullable, flex bool, path string) any {
	switch ty {
	case "bool":
		b := d.take(1, path)[0]
		if b > 1 && !d.lax {
			d.fail("%s: boolean byte %d", path, b)
		}
		return b == 1
	case "i8":
		return int64(int8(d.take(1, path)[0]))
	case "i16":
		return int64(int16(binary.BigEndian.Uint16(d.take(2, path))))
	case "i32":
		return int64(int32(binary.BigEndian.Uint32(d.take(4, path))))
	case "i64":
		return int64(binary.BigEndian.Uint64(d.take(8, path)))
	case "string":
		n := d.length(flex, true, path)
		if n < 0 {
			if !nullable || n < -1 {
				d.fail("%s: string length %d", path, n)
			}
			return nil
		}
		return string(d.take(n, path))
	case "bytes":
		n := d.length(flex, false, path)
		if n < 0 {
			if !nullable || n < -1 {
				d.fail("%s: bytes length %d", path, n)
			}
			return nil
		}
		return append([]byte{}, d.take(n, path)...)
	}
	panic("kref: type " + ty)
}

func (d *dec) strct(st *Struct, ver int, flex bool, path string) M {
	v := M{}
	for _, f := range st.Fields {
		if !f.In(ver) {
			continue
		}
		p := path + "." + f.Name
		if f.Type != "array" {
			v[f.Name] = d.prim(f.Type, f.Nullable, flex, p)
			continue
		}
		n := d.length(flex, false, p)
		if n < 0 {
			if !f.Nullable || n < -1 {
				d.fail("%s: array length %d", p, n)
			}
			v[f.Name] = nil
			continue
		}
		if n > len(d.b)-d.off {
			d.fail("%s: array length %d exceeds the remaining bytes", p, n)
		}
		arr := A{}
		for i := 0; i < n; i++ {
			ep := fmt.Sprintf("%s[%d]", p, i)
			if f.Elem != nil {
				arr = append(arr, d.strct(f.Elem, ver, flex, ep))
			} else {
				arr = append(arr, d.prim(f.ElemType, false, flex, ep))
			}
		}
		v[f.Name] = arr
	}
	if flex {
		d.tags(path)
	}
	return v
}

func (d *dec) tags(path string) {
	n := d.uvarint(path + ".tags")
	for i := uint64(0); i < n; i++ {
		d.uvarint(path + ".tag")
		l := d.uvarint(path + ".taglen")
		if l > math.MaxInt32 {
			d.fail("%s: tag length", path)
		}
		d.take(int(l), path+".tagdata")
	}
}

// ---- messages -----------------------------------------------------------------

// Request is a decoded request.
type Request struct {
	API      *API
	Ver      int
	Corr     int32
	ClientID any // string or nil
	Body     M
}

// DecodeRequest decodes a request frame (without the 4 byte length).
func DecodeRequest(b []byte) (r *Request, err error) {
	defer func() {
		if e := recover(); e != nil {
			if de, ok := e.(decErr); ok {
				err = fmt.Errorf("%s", de.msg)
				return
			}
			panic(e)
		}
	}()
	d := &dec{b: b}
	r = &Request{}
	key := int(int16(binary.BigEndian.Uint16(d.take(2, "header.api_key"))))
	r.Ver = int(int16(binary.BigEndian.Uint16(d.take(2, "header.api_version"))))
	r.Corr = int32(binary.BigEndian.Uint32(d.take(4, "header.correlation_id")))
	r.API = ByKey[key]
	if r.API == nil {
		return nil, fmt.Errorf("unknown api key %d", key)
	}
	r.ClientID = d.prim("string", true, false, "header.client_id")
	flex := r.API.FlexAt(r.Ver)
	if flex {
		d.tags("header")
	}
	r.Body = d.strct(r.API.Req, r.Ver, flex, r.API.Name)
	if d.off != len(b) {
		return r, fmt.Errorf("%s v%d request: %d bytes left over", r.API.Name, r.Ver, len(b)-d.off)
	}
	return r, nil
}

// PeekHeader reads api key, version, correlation id.
func PeekHeader(b []byte) (key, ver int, corr int32, ok bool) {
	if len(b) < 8 {
		return
	}
	return int(int16(binary.BigEndian.Uint16(b))), int(int16(binary.BigEndian.Uint16(b[2:]))), int32(binary.BigEndian.Uint32(b[4:])), true
}

// EncodeResponse encodes a full response frame with its length prefix.
func EncodeResponse(a *API, ver int, corr int32, body M, extraTags bool) (frame []byte, marks []Mark) {
	e := &Enc{ExtraTags: extraTags}
	e.mark(4, "frame", "frame.length")
	e.i32(0)
	e.mark(4, "i32", "header.correlation_id")
	e.i32(corr)
	flex := a.FlexAt(ver)
	if flex && a.Key != 18 {
		e.tags("header")
	}
	e.Struct(a.Resp, ver, flex, body, a.Name)
	binary.BigEndian.PutUint32(e.B, uint32(len(e.B)-4))
	return e.B, e.Marks
}

// DecodeResponse decodes a response frame with its length prefix; bytes too
// many are no error.
func DecodeResponse(a *API, ver int, frame []byte) (body M, err error) {
	defer func() {
		if e := recover(); e != nil {
			if de, ok := e.(decErr); ok {
				err = fmt.Errorf("%s", de.msg)
				return
			}
			panic(e)
		}
	}()
	d := &dec{b: frame, lax: true}
	d.take(8, "frame")
	flex := a.FlexAt(ver)
	if flex && a.Key != 18 {
		d.tags("header")
	}
	return d.strct(a.Resp, ver, flex, a.Name), nil
}

// EncodeStruct encodes a bare struct (group metadata and the like).
func EncodeStruct(schema string, v M) []byte {
	e := &Enc{}
	e.Struct(parseStruct(schema), 0, false, v, "")
	return e.B
}

// DecodeStruct decodes a bare struct; all bytes must be used unless lax.
func DecodeStruct(schema string, b []byte, lax bool) (v M, err error) {
	defer func() {
		if e := recover(); e != nil {
			if de, ok := e.(decErr); ok {
				err = fmt.Errorf("%s", de.msg)
				return
			}
			panic(e)
		}
	}()
	d := &dec{b: b}
	v = d.strct(parseStruct(schema), 0, false, "")
	if d.off != len(b) && !lax {
		err = fmt.Errorf("%d bytes left over", len(b)-d.off)
	}
	return
}

// Schemas of the consumer group payloads.
const (
	MemberMetaSchema = "version:i16 topics: [ string ] user_data:?bytes"
	AssignmentSchema = "version:i16 topics: [ topic:string partitions: [ i32 ] ] user_data:?bytes"
)

// Show renders a value canonically.
func Show(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case M:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(k + ":" + Show(x[k]))
		}
		sb.WriteByte('}')
		return sb.String()
	case A:
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(Show(e))
		}
		sb.WriteByte(']')
		return sb.String()
	case []byte:
		if x == nil {
			return "null"
		}
		return fmt.Sprintf("0x%x", x)
	case string:
		return strconv.Quote(x)
	case *string:
		if x == nil {
			return "null"
		}
		return strconv.Quote(*x)
	case bool:
		return fmt.Sprint(x)
	case []int32, []int64, []int, []string, []M:
		return Show(ToA(x))
	}
	return fmt.Sprint(toInt(v))
}

// Normalize fills defaults and drops fields not in the version, so that two
// values can be compared with Show.
func Normalize(st *Struct, ver int, v M) M {
	out := M{}
	for _, f := range st.Fields {
		if !f.In(ver) {
			continue
		}
		val, ok := v[f.Name]
		if !ok {
			val = zero(f)
		}
		if f.Type == "array" && val != nil {
			arr := A{}
			for _, x := range ToA(val) {
				if f.Elem != nil {
					arr = append(arr, Normalize(f.Elem, ver, x.(M)))
				} else {
					arr = append(arr, x)
				}
			}
			val = arr
		}
		if f.Type == "bool" {
			val = toInt(val) != 0
		}
		out[f.Name] = val
	}
	return out
}

// ToInt converts any integer value.
func ToInt(v any) int64 { return int64(toInt(v)) }
