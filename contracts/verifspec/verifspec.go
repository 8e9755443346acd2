//go:build verif

// Package verifspec declares the specification language of the contracts.
// The functions have no behaviour: the verifier (/verif/gov) interprets calls
// to them in contract bodies.
package verifspec

// Seq is a mathematical sequence.
type Seq[T any] []T

// Visited is the set of map keys a range loop has already produced.
type Visited[K comparable] struct{ _ []K }

func (Visited[K]) Has(k K) bool { panic("spec") }

// ---- clauses ----

// Property names the properties the contract belongs to.
func Property(ids ...string)                                { panic("spec") }
func Requires(conds ...bool)                                { panic("spec") }
func Ensures(name string, cond bool, props ...string)       { panic("spec") }
func OnPanic(name string, cond bool, props ...string)       { panic("spec") }
func Assigns(locs ...any)                                   { panic("spec") }
func AssignsAll()                                           { panic("spec") }
func AnyFrame()                                             { panic("spec") }
func AssignsWriter(w any)                                   { panic("spec") }
func AssignsDecoded(v any)                                  { panic("spec") }
func NoCapture()                                            { panic("spec") }
func Stable(typ string)                                     { panic("spec") }
func NoPanic()                                              { panic("spec") }
func Pure()                                                 { panic("spec") }
func Trusted()                                              { panic("spec") }
func InlineAtCalls()                                        { panic("spec") }
func Unroll(n int)                                          { panic("spec") }
func Invariant(name string, f any)                          { panic("spec") }

// ---- expressions ----

func Old[T any](x T) T                    { panic("spec") }
func Implies(a, b bool) bool              { panic("spec") }
func Iff(a, b bool) bool                  { panic("spec") }
func Ite[T any](c bool, a, b T) T         { panic("spec") }
func Forall(f any) bool                   { panic("spec") }
func Exists(f any) bool                   { panic("spec") }
func Fresh(x any) bool                    { panic("spec") }
func SameType(a, b any) bool              { panic("spec") }
func TypeString(x any) string             { panic("spec") }
func PkgPath(x any) string                { panic("spec") }
func IsType[T any](x any) bool            { panic("spec") }
func Has[K comparable, V any](m map[K]V, k K) bool { panic("spec") }
func Lines(s []string) string             { panic("spec") }
func SeqOf[T any](s []T) Seq[T]           { panic("spec") }
func Cat[T any](ss ...Seq[T]) Seq[T]      { panic("spec") }
func Unit[T any](x T) Seq[T]              { panic("spec") }
func Empty[T any]() Seq[T]                { panic("spec") }
func SeqLen[T any](s Seq[T]) int          { panic("spec") }
func Nth[T any](s Seq[T], i int) T        { panic("spec") }
func StrOf(b []byte) string               { panic("spec") }
func BufferContent(b any) string          { panic("spec") }
func Written(w any) string                { panic("spec") }
func Status(w any) int                    { panic("spec") }
func SameArray(a, b any) bool           { panic("spec") }
func Same(a, b any) bool               { panic("spec") }
func RequestURL(r any) string             { panic("spec") }
func RequestBody(r any) any               { panic("spec") }
func UF[T any](name string, args ...any) T { panic("spec") }

// ---- events (observable calls made by the function) ----

func Count(event string) int                     { panic("spec") }
func CountOf(f any) int                          { panic("spec") }
func Arg[T any](event string, k, i int) T        { panic("spec") }
func Ret[T any](event string, k, i int) T        { panic("spec") }
func At[T any](event string, k int, x T) T       { panic("spec") }
func After[T any](event string, k int, x T) T    { panic("spec") }
func Before(a string, i int, b string, j int) bool { panic("spec") }
