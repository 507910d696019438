package fx

import (
	"net/http"
	"time"

	"verifharness/fx/other"
)

// Service: echo methods, every argument kind.
type Service interface {
	Nop()
	// Bool is documented.
	//
	// Deprecated: use Int.
	Bool(v bool) bool // and commented
	Int(v int) int
	Int8(v int8) int8
	//nolint:all
	Int16(v int16) int16
	// Int17(v int16) int16
	Int32(v int32) int32
	Int64(v int64) int64
	Uint(v uint) uint
	Uint8(v uint8) uint8
	Uint16(v uint16) uint16
	Uint32(v uint32) uint32
	Uint64(v uint64) uint64
	Float32(v float32) float32
	Float64(v float64) float64
	String(v string) string
	Bytes(v []byte) []byte
	Any(v interface{}) interface{}
	Anys(v []interface{}) []interface{}
	AnyMap(v map[string]interface{}) map[string]interface{}
	PtrBool(v *bool) *bool
	PtrInt(v *int) *int
	PtrString(v *string) *string
	Strings(v []string) []string
	Ints(v []int) []int
	Nest(v [][]string) [][]string
	PtrSlice(v []*Leaf) []*Leaf
	MapSI(v map[string]int) map[string]int
	MapIS(v map[int]string) map[int]string
	MapNest(v map[string]map[string][]Leaf) map[string]map[string][]Leaf
	SliceMap(v []map[string]int) []map[string]int
	Str(v Str) Str
	Num(v Num) Num
	Real(v Real) Real
	Flag(v Flag) Flag
	Names(v Names) Names
	Matrix(v Matrix) Matrix
	ByName(v ByName) ByName
	Deep(v Deep) Deep
	Leaf(v Leaf) Leaf
	PLeaf(v *Leaf) *Leaf
	// TODO: remove, hidden, private, internal, ignore, gotsrpc:ignore, skip
	Tree(v *Tree) *Tree // Deprecated: here
	Rec(v Rec) Rec
	PRec(v *Rec) *Rec
	Recs(v []Rec) []Rec
	RecMap(v map[string]Rec) map[string]Rec
	Item(v other.Item) other.Item
	PItem(v *other.Item) *other.Item
	Items(v []other.Item) []other.Item
	Kind(v other.Kind) other.Kind
	List(v other.List) other.List
	Index(v other.Index) other.Index
	Levels(v map[other.Level]other.Kind) map[other.Level]other.Kind
	Time(v time.Time) time.Time
	Stamped(v Stamped) Stamped
	// several arguments, grouped names, several results
	Two(a, b string) (string, string)
	Mix(a int, b, c string, d *Leaf, e []int, f map[string]bool) (ra map[string]bool, rb []int, rc *Leaf, rd, re string, rf int)
	Swap(a Leaf, b other.Item) (b1 other.Item, a1 Leaf)
	Many(a, b, c, d, e, f, g int) (ra, rb, rc, rd, re, rf, rg int)
	Sink(a string, b int)
	Source() (Rec, int)
	// http aware
	Http(w http.ResponseWriter, r *http.Request)
	HttpArgs(w http.ResponseWriter, r *http.Request, a string, b Leaf) (ra string, rb Leaf)
	HttpStatus(w http.ResponseWriter, r *http.Request, status int, body string) (rs int)
	// errors
	Err(id string) error
	ErrAnd(id string) (ret string, err error)
	ErrHttp(w http.ResponseWriter, r *http.Request, id string) (err error)
	ErrScalar(id string) *ScalarErr
	ErrStruct(id string) (n int, e *StructErr)
	ErrTagged(id string) *TaggedErr
	ErrFault(id string) *other.Fault
	ErrTwo(id string) (e1 error, e2 error)
	ErrMany(id string) (e1 error, n int, e2 error, e3 error, s string)
}
