package zz_verifspec

import (
	"errors"
	"fmt"

	edtf "github.com/sfomuseum/go-edtf"
)

// Only tells whether an error is recognised by the predicate of its kind and by
// no other one.
func Only(kind int, err error) bool {
	return edtf.IsNotSet(err) == (kind == 1) &&
		edtf.IsNotImplemented(err) == (kind == 2) &&
		edtf.IsInvalid(err) == (kind == 3) &&
		edtf.IsUnsupported(err) == (kind == 4) &&
		edtf.IsUnrecognized(err) == (kind == 5) &&
		(err == nil) == (kind == 0)
}

// OtherError is an error of none of the kinds.
func OtherError(s string) error { return errors.New(s) }

// odd is an error with the methods that errors of other packages have.
type odd struct {
	s     string
	inner error
	b     bool
}

func (o odd) Error() string              { return o.s }
func (o odd) Unwrap() error              { return o.inner }
func (o odd) Timeout() bool              { return o.b }
func (o odd) Temporary() bool            { return o.b }
func (o odd) Is(target error) bool       { return false }
func (o odd) As(target interface{}) bool { return false }
func (o odd) String() string             { return o.s }
func (o odd) Code() int                  { return 404 }

type embedding struct{ error }

type embeddingNotSet struct{ *edtf.NotSetError }

type embeddingInvalid struct{ edtf.InvalidError }

type embeddingNotImplemented struct{ *edtf.NotImplementedError }

type embeddingUnsupported struct{ *edtf.UnsupportedError }

type embeddingUnrecognized struct{ *edtf.UnrecognizedError }

type text string

func (t text) Error() string { return string(t) }

// ForeignError is the n-th of several errors of other types, with any text, that
// hold or embed an error of the kind k.
func ForeignError(n int, s string, k int, b bool) error {
	switch n {
	case 0:
		return odd{s, KindErr(k), b}
	case 1:
		return &odd{s, KindErr(k), b}
	case 2:
		return embedding{KindErr(k)}
	case 3:
		return &embedding{KindErr(k)}
	case 4:
		return embeddingNotSet{&edtf.NotSetError{}}
	case 5:
		return &embeddingInvalid{}
	case 6:
		return embeddingNotImplemented{&edtf.NotImplementedError{}}
	case 7:
		return embeddingUnsupported{&edtf.UnsupportedError{}}
	case 8:
		return embeddingUnrecognized{&edtf.UnrecognizedError{}}
	case 9:
		return text(s)
	}
	return errors.New(s)
}

// Wrapped is another error that wraps one of a kind.
func Wrapped(s string, k int) error {
	return fmt.Errorf("%s: %w", s, KindErr(k))
}
