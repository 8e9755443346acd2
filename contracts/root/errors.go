//go:build verif

package gotsrpc

import (
	"reflect"
	"strings"

	"github.com/pkg/errors"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// elemPkg is the package of a value's type, or of the type it points to.
//
//@ spec
func elemPkg(x any) string {
	t := reflect.TypeOf(x)
	if t.Kind() == reflect.Ptr {
		return t.Elem().PkgPath()
	}
	return t.PkgPath()
}

// stackOnly: a layer that only records a call stack.
//
//@ spec
func stackOnly(err error) bool {
	return gs.IsType[interface {
		StackTrace() errors.StackTrace
	}](err) && errors.Unwrap(err) != nil
}

// core is the error below the call-stack layers.
//
//@ spec
func core(err error) error {
	if stackOnly(err) {
		return core(errors.Unwrap(err))
	}
	return err
}

// text is the full message of a transported error.
//
//@ spec
func text(e *Error) string {
	if e.ErrCause != nil {
		return e.Msg + ": " + text(e.ErrCause)
	}
	return e.Msg
}

// msg is an error's message.
//
//@ spec
func msg(err error) string {
	if gs.IsType[*Error](err) {
		return text(err.(*Error))
	}
	return err.Error()
}

// conventional: every layer's message is its own text followed by the text
// of its cause, or exactly that of the cause for a call-stack layer.
//
//@ spec
func conventional(err error) bool {
	if gs.IsType[*Error](err) {
		return true
	}
	if errors.Unwrap(err) == nil {
		return true
	}
	if stackOnly(err) {
		return msg(err) == msg(errors.Unwrap(err)) && conventional(errors.Unwrap(err))
	}
	return strings.HasSuffix(msg(err), ": "+msg(errors.Unwrap(err))) && conventional(errors.Unwrap(err))
}

// transports: r carries the identity, data and message of every layer of err.
//
//@ spec
func transports(r *Error, err error) bool {
	s := core(err)
	if gs.IsType[*Error](s) {
		return r == s.(*Error)
	}
	if r == nil || r.Type != reflect.TypeOf(s).String() || r.Pkg != elemPkg(s) || r.Data != any(s) {
		return false
	}
	u := errors.Unwrap(s)
	if u == nil {
		return r.ErrCause == nil && r.Msg == s.Error()
	}
	return r.Msg == strings.TrimSuffix(s.Error(), ": "+msg(u)) && transports(r.ErrCause, u)
}

//@ contract NewError
func ctNewError(err error, r *Error) {
	gs.Property("C09")
	gs.Requires(err != nil)
	gs.Ensures("every layer keeps its type, package, data and text", transports(r, err))
	gs.Ensures("the full message is the original one", gs.Implies(conventional(err), text(r) == msg(err)))
	gs.Ensures("r is not nil unless err is a nil *Error", gs.Implies(!gs.IsType[*Error](core(err)), r != nil))
	gs.Invariant("stack layers are skipped", func(e error) bool {
		return e != nil && core(e) == core(err) && gs.Implies(conventional(err), conventional(e) && msg(e) == msg(err))
	})
}

//@ contract (*Error).Error
func ctErrorError(e *Error, s string) {
	gs.Property("C09", "C10")
	gs.Requires(e != nil)
	gs.Ensures("the message is the layers' texts joined by ': '", s == text(e))
}

// sameIdentity: the transported layer e came from an error of err's type.
//
//@ spec
func sameIdentity(e *Error, err any) bool {
	return reflect.TypeOf(err).String() == e.Type && elemPkg(err) == e.Pkg
}

//@ contract (*Error).Is
func ctErrorIs(e *Error, err error, r bool) {
	gs.Property("C10")
	gs.Requires(gs.Implies(gs.IsType[*Error](err), err.(*Error) != nil))
	gs.Ensures("a layer matches exactly the errors with its type, package and message", gs.Iff(r,
		e != nil && err != nil && sameIdentity(e, err) && (e.Msg == msg(err) || text(e) == msg(err))))
	gs.NoPanic()
}

//@ contract (*Error).As
func ctErrorAs(e *Error, err interface{}, r bool) {
	gs.Property("C10")
	gs.Requires(err == nil || reflect.TypeOf(err).Kind() == reflect.Ptr)
	elem := reflect.TypeOf(err).Elem()
	pkg := gs.Ite(elem.Kind() == reflect.Ptr, elem.Elem().PkgPath(), elem.PkgPath())
	match := e != nil && err != nil && elem.String() == e.Type && pkg == e.Pkg
	gs.Ensures("only a target of the transported type and package is filled", gs.Iff(match, gs.Count("mapstructure.Decode") == 1))
	gs.Ensures("the target is filled from the transported data", gs.Implies(match, gs.Arg[any]("mapstructure.Decode", 0, 0) == e.Data))
	gs.Ensures("the result tells whether the target was filled", gs.Iff(r, match && gs.Ret[error]("mapstructure.Decode", 0, 0) == nil))
	gs.NoPanic()
	gs.AnyFrame()
}

//@ contract (*Error).Unwrap
func ctErrorUnwrap(e *Error, r error) {
	gs.Property("C10")
	gs.Ensures("unwrapping yields the next layer, or nil at the end", gs.Ite(e == nil || e.ErrCause == nil, r == nil, gs.IsType[*Error](r) && r.(*Error) == e.ErrCause))
	gs.NoPanic()
}

//@ contract (*Error).Cause
func ctErrorCause(e *Error, r error) {
	gs.Property("C10")
	gs.Requires(e != nil)
	gs.Ensures("the cause is the next layer", gs.Implies(e.ErrCause != nil, gs.IsType[*Error](r) && r.(*Error) == e.ErrCause))
	gs.Ensures("the walk along causes ends", gs.Implies(e.ErrCause == nil, r == nil || gs.IsType[*Error](r) && r.(*Error) != e))
	gs.NoPanic()
}

// lemma: a transported error matches the error it came from
func lemmaIsSelf(err error) bool {
	return NewError(err).Is(err)
}

//@ contract lemmaIsSelf
func ctIsSelf(err error, r bool) {
	gs.Property("C10")
	gs.Requires(err != nil, !stackOnly(err), !gs.IsType[*Error](err), conventional(err))
	gs.Ensures("a transported error matches its original", r)
}
