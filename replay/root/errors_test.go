package gotsrpc

import (
	"encoding/json"
	stderrors "errors"
	"fmt"
	ht "html/template"
	"reflect"
	"strings"
	"testing"

	"github.com/pkg/errors"
)

type verifErrStruct struct {
	Code int    `json:"code"`
	Text string `json:"text"`
}

func (e verifErrStruct) Error() string { return e.Text }

type verifErrPtr struct{ Text string }

func (e *verifErrPtr) Error() string { return e.Text }

type verifErrString string

func (e verifErrString) Error() string { return string(e) }

type verifErrSlice []string

func (e verifErrSlice) Error() string { return strings.Join(e, ",") }

type verifErrWrap struct {
	Pre  string
	Next error
}

func (e *verifErrWrap) Error() string {
	if e.Next == nil {
		return e.Pre
	}
	return e.Pre + ": " + e.Next.Error()
}
func (e *verifErrWrap) Unwrap() error { return e.Next }

type verifErrStack struct{ error }

func (e *verifErrStack) StackTrace() errors.StackTrace { return nil }
func (e *verifErrStack) Unwrap() error                 { return e.error }

type verifErrStackLeaf struct{ Text string }

func (e *verifErrStackLeaf) Error() string                 { return e.Text }
func (e *verifErrStackLeaf) StackTrace() errors.StackTrace { return nil }

func (v *verifRun) leaf() error {
	switch v.rng.Intn(8) {
	case 0:
		return stderrors.New(v.str())
	case 1:
		return verifErrStruct{v.rng.Intn(3), v.str()}
	case 2:
		return &verifErrPtr{v.str()}
	case 3:
		return verifErrString(v.str())
	case 4:
		return &verifErrStackLeaf{v.str()}
	case 5:
		return &Error{Msg: v.str(), Pkg: "p", Type: "t.T", Data: v.str()}
	case 6:
		return &ht.Error{Name: v.str(), Description: v.str()}
	default:
		return errors.New(v.str())
	}
}

func (v *verifRun) chain(n int) error {
	e := v.leaf()
	for ; n > 0; n-- {
		switch v.rng.Intn(6) {
		case 0:
			e = errors.WithStack(e)
		case 1:
			e = errors.WithMessage(e, v.str())
		case 2:
			e = errors.Wrap(e, v.str())
		case 3:
			e = fmt.Errorf("%s: %w", v.str(), e)
		case 4:
			e = &verifErrWrap{v.str(), e}
		default:
			e = &verifErrStack{e}
		}
	}
	return e
}

func verifStack(e error) bool {
	_, ok := e.(interface {
		StackTrace() errors.StackTrace
	})
	return ok && stderrors.Unwrap(e) != nil
}

func verifElemPkg(x interface{}) string {
	t := reflect.TypeOf(x)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.PkgPath()
}

// verifLayers lists what the transported chain of err must hold.
func verifLayers(err error) (out []error) {
	for err != nil {
		for verifStack(err) {
			err = stderrors.Unwrap(err)
		}
		out = append(out, err)
		if _, ok := err.(*Error); ok {
			return
		}
		err = stderrors.Unwrap(err)
	}
	return
}

func TestVerifC09_NewError(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1500); i++ {
		err := v.chain(v.rng.Intn(7))
		var r *Error
		if p := verifTry(func() { r = NewError(err) }); !v.ok(p == nil, "NewError panics: %v", p) {
			continue
		}
		desc := fmt.Sprintf("chain %s", verifDesc(err))
		v.ok(r.Error() == err.Error(), "%s: message %q, transported %q", desc, err.Error(), r.Error())
		v.ok(NewError(r) == r, "%s: transporting twice changes the error", desc)
		v.ok(NewError(errors.WithStack(errors.WithStack(r))) == r, "%s: a call-stack layer changes a transported error", desc)
		e := r
		ls := verifLayers(err)
		for k, l := range ls {
			if !v.ok(e != nil, "%s: layer %d (%T) is missing", desc, k, l) {
				break
			}
			if x, ok := l.(*Error); ok {
				v.ok(x == e, "%s: layer %d is not the transported error itself", desc, k)
				e = nil
				break
			}
			v.ok(e.Type == fmt.Sprintf("%T", l) && e.Pkg == verifElemPkg(l), "%s: layer %d is %T, transported as %s of %q", desc, k, l, e.Type, e.Pkg)
			v.ok(reflect.DeepEqual(e.Data, l), "%s: layer %d loses its data", desc, k)
			txt := l.Error()
			if u := stderrors.Unwrap(l); u != nil {
				txt = strings.TrimSuffix(txt, ": "+u.Error())
			}
			v.ok(e.Msg == txt, "%s: layer %d has text %q, transported %q", desc, k, txt, e.Msg)
			e = e.ErrCause
		}
		v.ok(e == nil, "%s: has %d layers, transported more", desc, len(ls))
	}
}

func verifDesc(err error) string {
	s := ""
	for err != nil {
		s += fmt.Sprintf("%T(%q) ", err, err.Error())
		err = stderrors.Unwrap(err)
	}
	return s
}

func TestVerifC10_Is(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1500); i++ {
		err := v.chain(v.rng.Intn(5))
		target := v.leaf()
		if v.rng.Intn(2) == 0 {
			ls := verifLayers(err)
			target = ls[v.rng.Intn(len(ls))]
		}
		r := NewError(err)
		for e := r; e != nil; e = e.ErrCause {
			want := fmt.Sprintf("%T", target) == e.Type && verifElemPkg(target) == e.Pkg && (target.Error() == e.Msg || target.Error() == e.Error())
			v.ok(e.Is(target) == want, "(%s of %s, %q).Is(%s): want %v", e.Type, e.Pkg, e.Msg, verifDesc(target), want)
			if e.ErrCause == nil {
				v.ok(e.Unwrap() == nil, "the last layer unwraps to %v", e.Unwrap())
			} else {
				v.ok(e.Unwrap() == error(e.ErrCause), "unwrapping does not give the next layer")
				v.ok(e.Cause() == error(e.ErrCause), "the cause is not the next layer")
			}
		}
		// near misses: another package, type or message
		if x := r; x != nil {
			orig := verifLayers(err)[0]
			if _, ok := orig.(*Error); !ok {
				for _, f := range []func(s string) string{
					func(s string) string { return s + "x" },
					func(s string) string { return "x" + s },
					func(s string) string { return "elsewhere/" + s },
					func(s string) string { return s + "/v2" },
					func(s string) string { return s[strings.LastIndex(s, "/")+1:] + "" },
					func(s string) string { return "other/" + s[strings.LastIndex(s, "/")+1:] },
					func(s string) string { return strings.ToUpper(s) },
					func(s string) string { return "" },
					func(s string) string { return strings.TrimPrefix(s, "*") },
				} {
					c := *x
					if c.Pkg = f(x.Pkg); c.Pkg != x.Pkg {
						v.ok(!c.Is(orig), "an error of package %q matches %T of package %q", c.Pkg, orig, x.Pkg)
					}
					c = *x
					if c.Type = f(x.Type); c.Type != x.Type {
						v.ok(!c.Is(orig), "an error of type %q matches %T", c.Type, orig)
					}
					c = *x
					c.Msg, c.ErrCause = f(x.Msg), nil
					if c.Msg != orig.Error() {
						v.ok(!c.Is(orig), "an error with message %q matches %q", c.Msg, orig.Error())
					}
				}
			}
		}
		v.ok(!r.Is(nil), "matches nil")
		for _, l := range verifLayers(err) {
			if _, ok := l.(*Error); !ok && reflect.TypeOf(l).Comparable() {
				v.ok(stderrors.Is(r, l), "transported %s does not match its layer %T(%q)", verifDesc(err), l, l.Error())
			}
		}
	}
	var nilErr *Error
	v.ok(!nilErr.Is(stderrors.New("x")) && !nilErr.As(new(verifErrStruct)) && nilErr.Unwrap() == nil, "a nil transported error matches something")
}

func TestVerifC10_As(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(400); i++ {
		s := verifErrStruct{v.rng.Intn(99), v.str()}
		var wire Error
		b, _ := json.Marshal(NewError(s))
		_ = json.Unmarshal(b, &wire)
		var data map[string]interface{}
		_ = json.Unmarshal([]byte(fmt.Sprintf(`{"Code":%d}`, s.Code)), &data)
		wire.Data = data
		var got verifErrStruct
		v.ok(wire.As(&got) && got.Code == s.Code, "As does not fill %#v from %#v: %#v", got, wire.Data, s)
		var other verifErrString
		v.ok(!wire.As(&other) && other == "", "As fills a target of another type")
		ptr := NewError(&verifErrPtr{s.Text})
		var p *verifErrPtr
		v.ok(ptr.As(&p) && p != nil && p.Text == s.Text, "As does not fill a pointer target")
		var p2 verifErrPtr
		v.ok(!ptr.As(&p2), "As fills a value target from a pointer error")
		v.ok(!wire.As(nil), "As of nil")
	}
	// equally named types of different packages
	e := NewError(&ht.Error{ErrorCode: 3, Name: "n"})
	e.Data = map[string]interface{}{"Name": "n"}
	var h *ht.Error
	v.ok(e.As(&h) && h.Name == "n", "As does not fill *html/template.Error")
	for _, pkg := range []string{"elsewhere/template", "template", "", "html/template/v2", "html/templat", "HTML/template", "text/template"} {
		e.Pkg = pkg
		h = nil
		v.ok(!e.As(&h) && h == nil, "As fills a target of the same type name but package %q", pkg)
	}
	e2 := NewError(verifErrStruct{1, "m"})
	e2.Pkg = "elsewhere/gotsrpc"
	v.ok(!e2.Is(verifErrStruct{1, "m"}), "Is matches a type of the same name but another package")
}
