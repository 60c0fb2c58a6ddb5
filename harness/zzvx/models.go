package zzvx

import "hash"

// ---- models used by the executor in place of code it does not interpret ----

// RuntimeError is the value of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

type modelErr struct {
	msg     string
	wrapped []error
}

func (e *modelErr) Error() string { return e.msg }

type modelErr1 struct {
	msg string
	err error
}

func (e *modelErr1) Error() string { return e.msg }
func (e *modelErr1) Unwrap() error { return e.err }

type modelErrN struct {
	msg  string
	errs []error
}

func (e *modelErrN) Error() string   { return e.msg }
func (e *modelErrN) Unwrap() []error { return e.errs }

func NewModelErr(msg string, wrapped []error) error {
	switch len(wrapped) {
	case 0:
		return &modelErr{msg: msg}
	case 1:
		return &modelErr1{msg, wrapped[0]}
	}
	return &modelErrN{msg, wrapped}
}

func comparableDyn(err error) bool { return true }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparableDyn(target)
	return errIs(err, target, cmp)
}

func errIs(err, target error, cmp bool) bool {
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type modelHash struct{ data []byte }

func digest(b []byte) []byte { return nil }

func ModelSHA256() hash.Hash                     { return &modelHash{} }
func (h *modelHash) Write(p []byte) (int, error) { h.data = append(h.data, p...); return len(p), nil }
func (h *modelHash) WriteString(p string) (int, error) {
	h.data = append(h.data, p...)
	return len(p), nil
}
func (h *modelHash) Sum(b []byte) []byte { return append(b, digest(h.data)...) }
func (h *modelHash) Reset()              { h.data = nil }
func (h *modelHash) Size() int           { return 32 }
func (h *modelHash) BlockSize() int      { return 64 }

func BAIndexByte(b []byte, c byte) int {
	for i := range b {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func BAIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func BALastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func BALastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func BACount(b []byte, c byte) int {
	n := 0
	for i := range b {
		if b[i] == c {
			n++
		}
	}
	return n
}
func BACountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func BAIndex(a, b []byte) int { return BAIndexString(string(a), string(b)) }
func BAIndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func swapElems(s any, i, j int) {}
func sliceLen(s any) int        { return 0 }

// SortSlice is a stable insertion sort.
func SortSlice(s any, less func(i, j int) bool) {
	n := sliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(s, j, j-1)
		}
	}
}

func SortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type sortInterface interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

func SortSort(s sortInterface) {
	n := s.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && s.Less(j, j-1); j-- {
			s.Swap(j, j-1)
		}
	}
}

func isBlock(kind string, s string) bool { return false }
func blockPayload(s string) any          { return nil }
func opaque(kind string, v any) string   { return "" }

// ReplaceWith is strings.Replacer.Replace for pairs oldnew with non-empty old strings.
func ReplaceWith(oldnew []string, s string) string {
	out := ""
	for i := 0; i < len(s); {
		hit := false
		for k := 0; k+1 < len(oldnew); k += 2 {
			o := oldnew[k]
			if len(o) > 0 && i+len(o) <= len(s) && s[i:i+len(o)] == o {
				out += oldnew[k+1]
				i += len(o)
				hit = true
				break
			}
		}
		if !hit {
			out += s[i : i+1]
			i++
		}
	}
	return out
}
