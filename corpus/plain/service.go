// Package plain is a service of the corpus given as a struct.
package plain

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2/verifcorpus/beta/types"
)

type Service struct {
	// Rec answers every call.
	Rec func(method string, args ...interface{}) []interface{}
}

func (s *Service) Double(n int, label string) (int, error) {
	r := s.Rec("Double", n, label)
	err, _ := r[1].(error)
	return r[0].(int), err
}

func (s *Service) Login(w http.ResponseWriter, r *http.Request, user string) bool {
	return s.Rec("Login", w, r, user)[0].(bool)
}

func (s *Service) Things(ids []types.ID) map[string][]types.Thing {
	return s.Rec("Things", ids)[0].(map[string][]types.Thing)
}

func (s *Service) helper(n int) int { return n }

func (s *Service) Reset() { s.Rec("Reset") }
