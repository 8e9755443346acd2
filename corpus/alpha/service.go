// Package alpha is a service of the corpus the generator is checked with.
package alpha

import (
	"net/http"
	"time"

	btypes "github.com/foomo/gotsrpc/v2/verifcorpus/beta/types"
	"github.com/foomo/gotsrpc/v2/verifcorpus/gamma/types"
)

type Kind string

const (
	KindOne Kind = "one"
	KindTwo Kind = "two"
)

type Item struct {
	ID     int               `json:"id"`
	Name   string            `json:"name,omitempty"`
	Kind   Kind              `json:"kind"`
	Parent *Item             `json:"parent,omitempty"`
	Tags   []string          `json:"tags"`
	Attrs  map[string]string `json:"attrs,omitempty"`
	hidden int
}

type Failure struct {
	Reason string `json:"reason"`
	Code   int    `json:"code"`
}

func (f *Failure) Error() string  { return f.Reason }
func (f *Failure) ErrorCode() int { return f.Code }

type ScalarError string

func (e ScalarError) Error() string { return string(e) }

const ErrBusy ScalarError = "busy"

type Service interface {
	Empty()
	Hello(name string) string
	Swap(a, b string) (string, string)
	Mixed(id int, names []string, opts map[string]*Item, deep [][]Item, when time.Time) (item *Item, found bool, err error)
	Fail(code int) *Failure
	FailScalar(really bool) (ScalarError, error)
	Session(w http.ResponseWriter, r *http.Request, a string, b int) (string, error)
	SessionOnly(w http.ResponseWriter, r *http.Request)
	Cross(a btypes.Thing, b *types.Thing) (*btypes.Thing, types.Thing)
	Get(id string) (value *string)
	GetAll() []Item
	Store(data []byte, rets Kind, err bool)
}

type Admin interface {
	Hello(name string, times int) string
	Shutdown(force bool) error
}
