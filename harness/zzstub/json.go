package zzstub

import (
	"reflect"
	"sort"
	"strconv"
	"unicode/utf8"
)

type jsonMarshaler interface{ MarshalJSON() ([]byte, error) }
type jsonUnmarshaler interface{ UnmarshalJSON([]byte) error }

func JSONMarshal(v any) ([]byte, error) {
	return enc(nil, reflect.ValueOf(v))
}

const hexd = "0123456789abcdef"

func encStr(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				b = append(b, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, "\\ufffd"...)
		} else if r == 0x2028 {
			b = append(b, "\\u2028"...)
		} else if r == 0x2029 {
			b = append(b, "\\u2029"...)
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}

func enc(b []byte, v reflect.Value) ([]byte, error) {
	if !v.IsValid() {
		return append(b, "null"...), nil
	}
	k := v.Kind()
	if k == reflect.Interface {
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		return enc(b, v.Elem())
	}
	if k == reflect.Pointer && v.IsNil() {
		return append(b, "null"...), nil
	}
	if m, ok := v.Interface().(jsonMarshaler); ok {
		r, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		if _, err := skip(r, 0); err != nil {
			return nil, err
		}
		return append(b, r...), nil
	}
	switch k {
	case reflect.Pointer:
		return enc(b, v.Elem())
	case reflect.Bool:
		if v.Bool() {
			return append(b, "true"...), nil
		}
		return append(b, "false"...), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return append(b, strconv.FormatInt(v.Int(), 10)...), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(b, strconv.FormatUint(v.Uint(), 10)...), nil
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if f != f || f-f != 0 {
			return nil, New("json: unsupported value")
		}
		bits := 64
		abs := f
		if abs < 0 {
			abs = -abs
		}
		if k == reflect.Float32 {
			bits = 32
		}
		if abs != 0 && (bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21)) {
			b = strconv.AppendFloat(b, f, 'e', -1, bits)
			if n := len(b); n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
				b[n-2] = b[n-1]
				b = b[:n-1]
			}
			return b, nil
		}
		return strconv.AppendFloat(b, f, 'f', -1, bits), nil
	case reflect.String:
		return encStr(b, v.String()), nil
	case reflect.Slice:
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			var err error
			if b, err = enc(b, v.Index(i)); err != nil {
				return nil, err
			}
		}
		return append(b, ']'), nil
	case reflect.Map:
		if v.IsNil() {
			return append(b, "null"...), nil
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(encStr(b, k.String()), ':')
			var err error
			if b, err = enc(b, v.MapIndex(k)); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	if k == reflect.Struct {
		b = append(b, '{')
		t := v.Type()
		first := true
		for i := 0; i < t.NumField(); i++ {
			name, omit, ok := jsonField(t.Field(i))
			if !ok || omit && emptyJSON(v.Field(i)) {
				continue
			}
			if !first {
				b = append(b, ',')
			}
			first = false
			b = append(encStr(b, name), ':')
			var err error
			if b, err = enc(b, v.Field(i)); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	panic("zzstub: json.Marshal of unsupported kind " + k.String())
}

func jsonField(f reflect.StructField) (name string, omit, ok bool) {
	if f.Anonymous {
		Unsupported("encoding/json: embedded field")
	}
	if f.PkgPath != "" {
		return "", false, false
	}
	tag := f.Tag.Get("json")
	if tag == "-" {
		return "", false, false
	}
	for i := 0; i < len(tag); i++ {
		if tag[i] == ',' {
			name = tag[:i]
			switch tag[i+1:] {
			case "omitempty":
				omit = true
			case "":
			default:
				Unsupported("encoding/json: field option " + tag)
			}
			tag = ""
		}
	}
	if tag != "" {
		name = tag
	}
	if name == "" {
		name = f.Name
	}
	return name, omit, true
}

func emptyJSON(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

// JSONMarshalIndent is json.MarshalIndent.
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b, err := JSONMarshal(v)
	if err != nil {
		return nil, err
	}
	var o []byte
	depth := 0
	nl := func() {
		o = append(o, '\n')
		o = append(o, prefix...)
		for k := 0; k < depth; k++ {
			o = append(o, indent...)
		}
	}
	for i := 0; i < len(b); {
		switch c := b[i]; c {
		case '"':
			e, _ := skipStr(b, i)
			o = append(o, b[i:e]...)
			i = e
			continue
		case ' ', '\t', '\n', '\r':
		case '{', '[':
			o = append(o, c)
			j := ws(b, i+1)
			if b[j] == '}' || b[j] == ']' {
				o = append(o, b[j])
				i = j
			} else {
				depth++
				nl()
			}
		case '}', ']':
			depth--
			nl()
			o = append(o, c)
		case ',':
			o = append(o, c)
			nl()
		case ':':
			o = append(o, ':', ' ')
		default:
			o = append(o, c)
		}
		i++
	}
	return o, nil
}

func foldEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if y >= 'A' && y <= 'Z' {
			y += 32
		}
		if x != y {
			return false
		}
	}
	return true
}

func ws(b []byte, i int) int {
	for i < len(b) && (b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r') {
		i++
	}
	return i
}

func syn(b []byte, i int) error {
	if i >= len(b) {
		return New("unexpected end of JSON input")
	}
	return New("invalid character in JSON input")
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func isHex(c byte) bool {
	return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func lit(b []byte, i int, s string) (int, error) {
	for k := 0; k < len(s); k++ {
		if i+k >= len(b) || b[i+k] != s[k] {
			return 0, syn(b, i+k)
		}
	}
	return i + len(s), nil
}

func skipStr(b []byte, i int) (int, error) {
	i++
	for {
		if i >= len(b) {
			return 0, syn(b, i)
		}
		c := b[i]
		if c == '"' {
			return i + 1, nil
		}
		if c < 0x20 {
			return 0, syn(b, i)
		}
		i++
		if c == '\\' {
			if i >= len(b) {
				return 0, syn(b, i)
			}
			switch b[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				i++
			case 'u':
				for k := 1; k <= 4; k++ {
					if i+k >= len(b) || !isHex(b[i+k]) {
						return 0, syn(b, i+k)
					}
				}
				i += 5
			default:
				return 0, syn(b, i)
			}
		}
	}
}

// skip returns the index after the value at i.
func skip(b []byte, i int) (int, error) {
	i = ws(b, i)
	if i >= len(b) {
		return 0, syn(b, i)
	}
	c := b[i]
	switch {
	case c == '"':
		return skipStr(b, i)
	case c == 't':
		return lit(b, i, "true")
	case c == 'f':
		return lit(b, i, "false")
	case c == 'n':
		return lit(b, i, "null")
	case c == '-' || isDigit(c):
		if c == '-' {
			i++
			if i >= len(b) || !isDigit(b[i]) {
				return 0, syn(b, i)
			}
		}
		if b[i] == '0' {
			i++
		} else {
			for i < len(b) && isDigit(b[i]) {
				i++
			}
		}
		if i < len(b) && b[i] == '.' {
			i++
			if i >= len(b) || !isDigit(b[i]) {
				return 0, syn(b, i)
			}
			for i < len(b) && isDigit(b[i]) {
				i++
			}
		}
		if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
			i++
			if i < len(b) && (b[i] == '+' || b[i] == '-') {
				i++
			}
			if i >= len(b) || !isDigit(b[i]) {
				return 0, syn(b, i)
			}
			for i < len(b) && isDigit(b[i]) {
				i++
			}
		}
		return i, nil
	case c == '[':
		i = ws(b, i+1)
		if i < len(b) && b[i] == ']' {
			return i + 1, nil
		}
		for {
			var err error
			if i, err = skip(b, i); err != nil {
				return 0, err
			}
			i = ws(b, i)
			if i < len(b) && b[i] == ']' {
				return i + 1, nil
			}
			if i >= len(b) || b[i] != ',' {
				return 0, syn(b, i)
			}
			i++
		}
	case c == '{':
		i = ws(b, i+1)
		if i < len(b) && b[i] == '}' {
			return i + 1, nil
		}
		for {
			i = ws(b, i)
			if i >= len(b) || b[i] != '"' {
				return 0, syn(b, i)
			}
			var err error
			if i, err = skipStr(b, i); err != nil {
				return 0, err
			}
			i = ws(b, i)
			if i >= len(b) || b[i] != ':' {
				return 0, syn(b, i)
			}
			if i, err = skip(b, i+1); err != nil {
				return 0, err
			}
			i = ws(b, i)
			if i < len(b) && b[i] == '}' {
				return i + 1, nil
			}
			if i >= len(b) || b[i] != ',' {
				return 0, syn(b, i)
			}
			i++
		}
	}
	return 0, syn(b, i)
}

func hex4(b []byte) rune {
	var r rune
	for _, c := range b[:4] {
		switch {
		case isDigit(c):
			r = r<<4 | rune(c-'0')
		case c >= 'a':
			r = r<<4 | rune(c-'a'+10)
		default:
			r = r<<4 | rune(c-'A'+10)
		}
	}
	return r
}

func unq(b []byte) string {
	b = b[1 : len(b)-1]
	var o []byte
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c == '\\':
			i++
			switch b[i] {
			case 'b':
				o = append(o, '\b')
			case 'f':
				o = append(o, '\f')
			case 'n':
				o = append(o, '\n')
			case 'r':
				o = append(o, '\r')
			case 't':
				o = append(o, '\t')
			case 'u':
				r := hex4(b[i+1:])
				i += 4
				if r >= 0xd800 && r < 0xe000 {
					if r < 0xdc00 && i+6 < len(b) && b[i+1] == '\\' && b[i+2] == 'u' {
						r2 := hex4(b[i+3:])
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
							i += 6
						} else {
							r = utf8.RuneError
						}
					} else {
						r = utf8.RuneError
					}
				}
				o = utf8.AppendRune(o, r)
			default:
				o = append(o, b[i])
			}
			i++
		case c < utf8.RuneSelf:
			o = append(o, c)
			i++
		default:
			r, n := utf8.DecodeRune(b[i:])
			o = utf8.AppendRune(o, r)
			i += n
		}
	}
	return string(o)
}

func JSONUnmarshal(data []byte, v any) error {
	i, err := skip(data, 0)
	if err != nil {
		return err
	}
	if i = ws(data, i); i < len(data) {
		return syn(data, i)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Pointer || rv.IsNil() {
		return New("json: Unmarshal(non-pointer)")
	}
	s := ws(data, 0)
	e, _ := skip(data, s)
	if u, ok := v.(jsonUnmarshaler); ok {
		return u.UnmarshalJSON(data[s:e])
	}
	return dec(data[s:e], rv.Elem())
}

func mismatch(b []byte, k reflect.Kind) error {
	return New("json: cannot unmarshal value into Go value of type " + k.String())
}

func dec(b []byte, v reflect.Value) error {
	if v.Kind() == reflect.Pointer {
		if b[0] == 'n' {
			v.SetZero()
			return nil
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		if u, ok := v.Interface().(jsonUnmarshaler); ok {
			return u.UnmarshalJSON(b)
		}
		return dec(b, v.Elem())
	}
	if v.CanAddr() {
		if u, ok := v.Addr().Interface().(jsonUnmarshaler); ok {
			return u.UnmarshalJSON(b)
		}
	}
	k := v.Kind()
	if b[0] == 'n' {
		switch k {
		case reflect.Interface, reflect.Map, reflect.Slice:
			v.SetZero()
		}
		return nil
	}
	switch k {
	case reflect.Interface:
		x, err := decAny(b)
		if err != nil {
			return err
		}
		v.Set(reflect.ValueOf(x))
		return nil
	case reflect.String:
		if b[0] != '"' {
			return mismatch(b, k)
		}
		v.SetString(unq(b))
		return nil
	case reflect.Bool:
		if b[0] != 't' && b[0] != 'f' {
			return mismatch(b, k)
		}
		v.SetBool(b[0] == 't')
		return nil
	case reflect.Int, reflect.Int64, reflect.Int32:
		if b[0] != '-' && !isDigit(b[0]) {
			return mismatch(b, k)
		}
		n, err := strconv.ParseInt(string(b), 10, 64)
		if err != nil || v.OverflowInt(n) {
			return mismatch(b, k)
		}
		v.SetInt(n)
		return nil
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		if b[0] != '-' && !isDigit(b[0]) {
			return mismatch(b, k)
		}
		n, err := strconv.ParseUint(string(b), 10, 64)
		if err != nil || v.OverflowUint(n) {
			return mismatch(b, k)
		}
		v.SetUint(n)
		return nil
	case reflect.Slice:
		if b[0] != '[' {
			return mismatch(b, k)
		}
		var first error
		s := reflect.MakeSlice(v.Type(), 0, 0)
		i := ws(b, 1)
		for b[i] != ']' {
			i = ws(b, i)
			e, _ := skip(b, i)
			x := reflect.New(v.Type().Elem())
			if err := dec(b[i:e], x.Elem()); err != nil && first == nil {
				first = err
			}
			s = reflect.Append(s, x.Elem())
			i = ws(b, e)
			if b[i] == ',' {
				i = ws(b, i+1)
			}
		}
		v.Set(s)
		return first
	case reflect.Map:
		if b[0] != '{' {
			return mismatch(b, k)
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		var first error
		i := ws(b, 1)
		for b[i] != '}' {
			i = ws(b, i)
			e, _ := skipStr(b, i)
			key := unq(b[i:e])
			i = ws(b, e) + 1
			i = ws(b, i)
			e, _ = skip(b, i)
			x := reflect.New(v.Type().Elem())
			err := dec(b[i:e], x.Elem())
			if err != nil && first == nil {
				first = err
			}
			v.SetMapIndex(reflect.ValueOf(key).Convert(v.Type().Key()), x.Elem())
			i = ws(b, e)
			if b[i] == ',' {
				i = ws(b, i+1)
			}
		}
		return first
	}
	if k == reflect.Struct {
		if b[0] != '{' {
			return mismatch(b, k)
		}
		t := v.Type()
		var first error
		i := ws(b, 1)
		for b[i] != '}' {
			i = ws(b, i)
			e, _ := skipStr(b, i)
			key := unq(b[i:e])
			i = ws(b, e) + 1
			i = ws(b, i)
			e, _ = skip(b, i)
			at := -1
			for f := 0; f < t.NumField(); f++ {
				if name, _, ok := jsonField(t.Field(f)); ok && (name == key || at < 0 && foldEq(name, key)) {
					at = f
				}
			}
			if at >= 0 {
				if err := dec(b[i:e], v.Field(at)); err != nil && first == nil {
					first = err
				}
			}
			i = ws(b, e)
			if b[i] == ',' {
				i = ws(b, i+1)
			}
		}
		return first
	}
	panic("zzstub: json.Unmarshal into unsupported kind " + k.String())
}

func decAny(b []byte) (any, error) {
	switch {
	case b[0] == '"':
		return unq(b), nil
	case b[0] == 't':
		return true, nil
	case b[0] == 'f':
		return false, nil
	case b[0] == 'n':
		return nil, nil
	case b[0] == '[':
		var l []any
		err := dec(b, reflect.ValueOf(&l).Elem())
		if l == nil {
			l = []any{}
		}
		return l, err
	case b[0] == '{':
		m := map[string]any{}
		err := dec(b, reflect.ValueOf(&m).Elem())
		return m, err
	}
	return strconv.ParseFloat(string(b), 64)
}
