package vf

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// JSON and XML documents inside the symbolic world. A document is kept as a tree of values with the fields that the
// encoder would write (tags, omitempty, MarshalJSON and UnmarshalJSON are honoured); what goes to the file is a token
// that stands for it. So values of documents may be symbolic, and text that is not exactly one document is rejected.

type doc struct {
	kind   byte // 0 null, 1 leaf, 2 object, 3 array
	leaf   any
	names  []string
	fields []*doc
}

var docs []*doc

const (
	docJ = "\x02J"
	docX = "\x02X"
	docE = "\x02"
)

type jsonMarshaler interface{ MarshalJSON() ([]byte, error) }
type jsonUnmarshaler interface{ UnmarshalJSON([]byte) error }

var timeType = reflect.TypeOf(time.Time{})

func docTag(f reflect.StructField, key string) (name string, omit, skip, chardata bool) {
	tag, ok := docTagLookup(f, key)
	name = f.Name
	if !ok {
		return name, false, false, false
	}
	if tag == "-" {
		return "", false, true, false
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			omit = true
		case "chardata":
			chardata = true
		}
	}
	return
}

func docTagLookup(f reflect.StructField, key string) (string, bool) {
	s := string(f.Tag)
	i := strings.Index(s, key+":\"")
	if i < 0 {
		return "", false
	}
	s = s[i+len(key)+2:]
	return s[:strings.Index(s, "\"")], true
}

func docEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String, reflect.Array:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

func docOf(v reflect.Value, x bool) (*doc, error) {
	if !v.IsValid() {
		return &doc{}, nil
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return &doc{}, nil
		}
	}
	if v.Type() == timeType {
		return &doc{kind: 1, leaf: v.Interface()}, nil
	}
	if !x && v.Kind() != reflect.Interface {
		m, ok := v.Interface().(jsonMarshaler)
		if !ok && v.CanAddr() {
			m, ok = v.Addr().Interface().(jsonMarshaler)
		}
		if ok {
			b, err := m.MarshalJSON()
			if err != nil {
				return nil, err
			}
			return docFind(b, docJ)
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return docOf(v.Elem(), x)
	case reflect.Struct:
		d := &doc{kind: 2}
		return d, docStruct(d, v, x)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return &doc{}, nil
		}
		d := &doc{kind: 3}
		for i := 0; i < v.Len(); i++ {
			e, err := docOf(v.Index(i), x)
			if err != nil {
				return nil, err
			}
			d.fields = append(d.fields, e)
		}
		return d, nil
	case reflect.Map:
		if v.IsNil() {
			return &doc{}, nil
		}
		d := &doc{kind: 2}
		for _, k := range v.MapKeys() {
			e, err := docOf(v.MapIndex(k), x)
			if err != nil {
				return nil, err
			}
			d.names, d.fields = append(d.names, k.String()), append(d.fields, e)
		}
		return d, nil
	case reflect.Func, reflect.Chan:
		return nil, errors.New("json: unsupported type: " + v.Type().String())
	}
	return &doc{kind: 1, leaf: v.Interface()}, nil
}

func docStruct(d *doc, v reflect.Value, x bool) error {
	key := "json"
	if x {
		key = "xml"
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Name == "XMLName" && x {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if _, tagged := docTagLookup(f, key); !tagged {
				if err := docStruct(d, v.Field(i), x); err != nil {
					return err
				}
				continue
			}
		}
		if f.PkgPath != "" {
			continue
		}
		name, omit, skip, _ := docTag(f, key)
		if skip || omit && docEmpty(v.Field(i)) {
			continue
		}
		e, err := docOf(v.Field(i), x)
		if err != nil {
			return err
		}
		d.names, d.fields = append(d.names, name), append(d.fields, e)
	}
	return nil
}

func docPut(d *doc, kind string) []byte {
	docs = append(docs, d)
	return []byte(kind + strconv.Itoa(len(docs)-1) + docE)
}

// docNext takes the document at the front of b.
func docNext(b []byte, kind string) (d *doc, rest []byte, err error) {
	b = bytes.TrimLeft(b, " \t\r\n")
	if len(b) == 0 {
		return nil, nil, io.EOF
	}
	if !bytes.HasPrefix(b, []byte(kind)) {
		return nil, b, errors.New("not a document")
	}
	e := bytes.Index(b[2:], []byte(docE))
	if e < 0 {
		return nil, b, errors.New("truncated document")
	}
	n, err := strconv.Atoi(string(b[2 : 2+e]))
	if err != nil || n >= len(docs) {
		return nil, b, errors.New("broken document")
	}
	return docs[n], b[3+e:], nil
}

func docFind(b []byte, kind string) (*doc, error) {
	d, rest, err := docNext(b, kind)
	if err == io.EOF {
		return nil, errors.New("unexpected end of JSON input")
	}
	if err == nil && len(bytes.TrimSpace(rest)) > 0 {
		err = errors.New("invalid character after top-level value")
	}
	return d, err
}

func docAny(d *doc) any {
	switch d.kind {
	case 1:
		v := reflect.ValueOf(d.leaf)
		switch v.Kind() {
		case reflect.String:
			return v.String()
		case reflect.Bool:
			return v.Bool()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return float64(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return float64(v.Uint())
		}
		return d.leaf
	case 2:
		m := map[string]any{}
		for i, n := range d.names {
			m[n] = docAny(d.fields[i])
		}
		return m
	case 3:
		s := []any{}
		for _, e := range d.fields {
			s = append(s, docAny(e))
		}
		return s
	}
	return nil
}

func docTo(d *doc, v reflect.Value, x bool) error {
	if !x && v.CanAddr() && v.Type() != timeType && v.Kind() != reflect.Interface && v.Kind() != reflect.Ptr {
		if u, ok := v.Addr().Interface().(jsonUnmarshaler); ok {
			return u.UnmarshalJSON(docPut(d, docJ))
		}
	}
	if d.kind == 0 {
		return nil
	}
	mismatch := errors.New("cannot decode into " + v.Type().String())
	if v.Type() == timeType {
		if t, ok := d.leaf.(time.Time); ok {
			v.Set(reflect.ValueOf(t))
			return nil
		}
		return mismatch
	}
	switch v.Kind() {
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		if err := docTo(d, p.Elem(), x); err != nil {
			return err
		}
		v.Set(p)
		return nil
	case reflect.Interface:
		v.Set(reflect.ValueOf(docAny(d)))
		return nil
	case reflect.Struct:
		if d.kind != 2 {
			return mismatch
		}
		return docFields(d, v, x)
	case reflect.Slice:
		if d.kind != 3 {
			return mismatch
		}
		s := reflect.MakeSlice(v.Type(), len(d.fields), len(d.fields))
		for i, e := range d.fields {
			if err := docTo(e, s.Index(i), x); err != nil {
				return err
			}
		}
		if x && len(d.fields) == 0 {
			return nil
		}
		v.Set(s)
		return nil
	}
	if d.kind != 1 {
		return mismatch
	}
	l := reflect.ValueOf(d.leaf)
	switch v.Kind() {
	case reflect.String:
		if l.Kind() == reflect.String {
			v.SetString(l.String())
			return nil
		}
	case reflect.Bool:
		if l.Kind() == reflect.Bool {
			v.SetBool(l.Bool())
			return nil
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch l.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(l.Int())
			return nil
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch l.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(l.Uint())
			return nil
		}
	case reflect.Float64:
		if l.Kind() == reflect.Float64 {
			v.SetFloat(l.Float())
			return nil
		}
	}
	return mismatch
}

func docFields(d *doc, v reflect.Value, x bool) error {
	key := "json"
	if x {
		key = "xml"
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Name == "XMLName" && x {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if err := docFields(d, v.Field(i), x); err != nil {
				return err
			}
			continue
		}
		if f.PkgPath != "" {
			continue
		}
		name, _, skip, _ := docTag(f, key)
		if skip {
			continue
		}
		for j, n := range d.names {
			if n == name {
				if err := docTo(d.fields[j], v.Field(i), x); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func mJSONMarshal(v any) ([]byte, error) {
	d, err := docOf(reflect.ValueOf(v), false)
	if err != nil {
		return nil, err
	}
	return docPut(d, docJ), nil
}

func mJSONUnmarshal(b []byte, v any) error {
	d, err := docFind(b, docJ)
	if err != nil {
		return err
	}
	return docTo(d, reflect.ValueOf(v).Elem(), false)
}

func mJSONValid(b []byte) bool {
	_, err := docFind(b, docJ)
	return err == nil
}

type docStream struct {
	j    any
	w    io.Writer
	r    io.Reader
	buf  []byte
	read bool
}

var docStreams []*docStream

func docStreamOf(p any) *docStream {
	for _, s := range docStreams {
		if s.j == p {
			return s
		}
	}
	panic("vf: unknown stream")
}

func mJSONNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	docStreams = append(docStreams, &docStream{j: e, w: w})
	return e
}

func mJSONNewDecoder(r io.Reader) *json.Decoder {
	e := new(json.Decoder)
	docStreams = append(docStreams, &docStream{j: e, r: r})
	return e
}

func mJSONSetIndent(*json.Encoder, string, string) {}

func mJSONEncode(e *json.Encoder, v any) error {
	b, err := mJSONMarshal(v)
	if err != nil {
		return err
	}
	_, err = docStreamOf(e).w.Write(append(b, '\n'))
	return err
}

func (s *docStream) decode(kind string, v any) error {
	if !s.read {
		b, err := io.ReadAll(s.r)
		if err != nil {
			return err
		}
		s.buf, s.read = b, true
	}
	b := s.buf
	if kind == docX {
		b = bytes.TrimPrefix(b, []byte(xml.Header))
	}
	d, rest, err := docNext(b, kind)
	if err != nil {
		return err
	}
	s.buf = rest
	return docTo(d, reflect.ValueOf(v).Elem(), kind == docX)
}

func mJSONDecode(e *json.Decoder, v any) error { return docStreamOf(e).decode(docJ, v) }

func mXMLNewEncoder(w io.Writer) *xml.Encoder {
	e := new(xml.Encoder)
	docStreams = append(docStreams, &docStream{j: e, w: w})
	return e
}

func mXMLNewDecoder(r io.Reader) *xml.Decoder {
	e := new(xml.Decoder)
	docStreams = append(docStreams, &docStream{j: e, r: r})
	return e
}

func mXMLIndent(*xml.Encoder, string, string) {}

func mXMLEncode(e *xml.Encoder, v any) error {
	d, err := docOf(reflect.ValueOf(v), true)
	if err != nil {
		return err
	}
	_, err = docStreamOf(e).w.Write(docPut(d, docX))
	return err
}

func mXMLDecode(e *xml.Decoder, v any) error { return docStreamOf(e).decode(docX, v) }
