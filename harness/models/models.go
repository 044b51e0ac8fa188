// Package models has the Go stand-ins the symbolic engine runs in place of
// standard-library and protobuf code it does not execute.
package models

import (
	"fmt"
	"hash"
	"strconv"

	"verif/harness/v"
)

// typeName is %T; the engine provides it.
func typeName(x interface{}) string { panic("engine only") }

// ---- fmt ----

type fmtError struct {
	format string
	args   []interface{}
	wrapped
}

type wrapped struct{ errs []error }

func (e *fmtError) Error() string { return Sprintf(e.format, e.args...) }

type wrapError struct {
	fmtError
	err error
}

func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	fmtError
	errs []error
}

func (e *wrapErrors) Unwrap() []error { return e.errs }

func Errorf(format string, args ...interface{}) error {
	var ws []error
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(args) {
			if e, ok := args[k].(error); ok {
				ws = append(ws, e)
			}
		}
		k++
	}
	f := fmtError{format: format, args: append([]interface{}(nil), args...)}
	switch len(ws) {
	case 0:
		return &f
	case 1:
		return &wrapError{f, ws[0]}
	}
	return &wrapErrors{f, ws}
}

func str(verb byte, a interface{}) string {
	switch x := a.(type) {
	case nil:
		if verb == 'd' || verb == 's' {
			return "%!" + string([]byte{verb}) + "(<nil>)"
		}
		return "<nil>"
	case error:
		if verb != 'd' && verb != 'x' && verb != 'X' {
			return x.Error()
		}
	case fmt.Stringer:
		if verb != 'd' && verb != 'x' && verb != 'X' {
			return x.String()
		}
	}
	if verb == 'x' || verb == 'X' || verb == 'q' {
		v.Unsupported("fmt verb " + string([]byte{verb}))
	}
	switch x := a.(type) {
	case string:
		return x
	case []byte:
		if verb == 's' {
			return string(x)
		}
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int:
		return strconv.Itoa(x)
	case int8:
		return strconv.FormatInt(int64(x), 10)
	case int16:
		return strconv.FormatInt(int64(x), 10)
	case int32:
		return strconv.FormatInt(int64(x), 10)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint:
		return strconv.FormatUint(uint64(x), 10)
	case uint8:
		return strconv.FormatUint(uint64(x), 10)
	case uint16:
		return strconv.FormatUint(uint64(x), 10)
	case uint32:
		return strconv.FormatUint(uint64(x), 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	}
	v.Unsupported("fmt of " + typeName(a))
	return ""
}

func pad(s, flags string) string {
	if flags == "" {
		return s
	}
	zero := false
	left := false
	i := 0
	for i < len(flags) && (flags[i] == '0' || flags[i] == '-' || flags[i] == '+' || flags[i] == '#' || flags[i] == ' ') {
		switch flags[i] {
		case '0':
			zero = true
		case '-':
			left = true
		default:
			v.Unsupported("fmt flag")
		}
		i++
	}
	w := 0
	for ; i < len(flags); i++ {
		if flags[i] == '.' {
			v.Unsupported("fmt precision")
		}
		w = w*10 + int(flags[i]-'0')
	}
	neg := ""
	if zero && len(s) > 0 && s[0] == '-' {
		neg, s = "-", s[1:]
		w--
	}
	for len(s) < w {
		if left {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return neg + s
}

func Sprintf(format string, args ...interface{}) string {
	r := ""
	k := 0
	j := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		r += format[j:i]
		i++
		f := i
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			return r + "%!(NOVERB)"
		}
		verb := format[i]
		j = i + 1
		if verb == '%' {
			r += "%"
			continue
		}
		if k >= len(args) {
			r += "%!" + string([]byte{verb}) + "(MISSING)"
			continue
		}
		switch verb {
		case 'T':
			r += typeName(args[k])
		case 's', 'd', 'v', 'w', 'x', 'q':
			r += pad(str(verb, args[k]), format[f:i])
		case 'c':
			v.Unsupported("fmt %c")
		default:
			v.Unsupported("fmt verb")
		}
		k++
	}
	if k < len(args) {
		v.Unsupported("fmt extra arguments")
	}
	return r + format[j:]
}

func Sprint(args ...interface{}) string {
	r := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := args[i-1].(string)
			_, s2 := a.(string)
			if !s1 && !s2 {
				r += " "
			}
		}
		r += str('v', a)
	}
	return r
}

func Appendf(b []byte, format string, args ...interface{}) []byte {
	return append(b, Sprintf(format, args...)...)
}

// ---- hashes: uninterpreted functions of the written bytes ----

type digest struct {
	name  string
	size  int
	block int
	data  []byte
}

func (d *digest) Write(b []byte) (int, error) {
	d.data = append(d.data, b...)
	return len(b), nil
}

func (d *digest) WriteString(s string) (int, error) {
	d.data = append(d.data, s...)
	return len(s), nil
}
func (d *digest) Sum(b []byte) []byte { return append(b, v.UFHash(d.name, d.size, d.data)...) }
func (d *digest) Reset()              { d.data = nil }
func (d *digest) Size() int           { return d.size }
func (d *digest) BlockSize() int      { return d.block }

func NewSHA1() hash.Hash   { return &digest{name: "sha1", size: 20, block: 64} }
func NewSHA256() hash.Hash { return &digest{name: "sha256", size: 32, block: 64} }

func SumSHA1(b []byte) (r [20]byte) {
	copy(r[:], v.UFHash("sha1", 20, b))
	return
}

func SumSHA256(b []byte) (r [32]byte) {
	copy(r[:], v.UFHash("sha256", 32, b))
	return
}
