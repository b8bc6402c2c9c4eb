package xdb

import (
	"strconv"

	"github.com/effective-security/xdb/internal/zzsym"
)

// zzDec is the decimal text of a number (reference).
func zzDec(n uint64) string {
	return strconv.FormatUint(n, 10)
}

// zzIsDec reports whether every byte is a decimal digit and there is at least one.
func zzIsDec(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zzsym.And(ok, s[i] >= '0', s[i] <= '9')
	}
	return ok
}

// zzVal is the value of a short decimal text (fewer than 19 digits), reference.
func zzVal(s string) uint64 {
	var v uint64
	for i := 0; i < len(s); i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return v
}

func zzTrimQuotes(s string) string {
	for len(s) > 0 && s[0] == '"' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == '"' {
		s = s[:len(s)-1]
	}
	return s
}

// zzScalar returns a driver-level scalar of the chosen Go kind holding the symbolic bits n, and
// its exact numeric value: (value, negative).
func zzScalar(kind int, n uint64) (v any, neg bool) {
	switch kind {
	case 0:
		return n, false
	case 1:
		return int64(n), int64(n) < 0
	case 2:
		return int(n), int64(n) < 0
	case 3:
		return uint(n), false
	}
	return nil, false
}

// zzOther returns a value of an unsupported kind.
func zzOther(kind int) any {
	switch kind {
	case 0:
		return "17"
	case 1:
		return []byte("17")
	case 2:
		return struct{}{}
	case 3:
		return map[string]string{}
	case 4:
		return int16(5)
	case 5:
		return uint32(5)
	}
	return complex(1, 2)
}

// zzPrintable is a text of exactly n bytes, each printable ASCII.
func zzPrintable(label string, n int) string {
	s := zzsym.Str(label, n)
	for i := 0; i < len(s); i++ {
		zzsym.Assume(zzsym.And(s[i] >= 0x20, s[i] < 0x7f))
	}
	return s
}
