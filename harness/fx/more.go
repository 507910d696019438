package fx

import (
	"net/http"
	"time"

	"verifharness/fx/other"
)

// Unions: served to TypeScript clients only (results).
type UnionService interface {
	Str(i int) UnionStr
	Pet(i int) Pet
	PPet(i int) *Pet
	Pets(n int) []Pet
	Owner(i int) Owner
	PetMap(n int) map[string]Pet
	PPetMap(n int) map[string]*Pet
	PPets(n int) []*Pet
	Shape(i int) other.Shape
	Shapes(n int) (a []other.Shape, b map[string]other.Shape)
	Either(i int) Either
	Valued(i int) Valued
	Kennel(i int) Kennel
	Solo(i int) Solo
	When(i int) (When, Since)
	Whens(n int) (l []When, m map[string]*Since)
	Bare(i int) Bare
	Bares(n int) (l []Bare, m map[string]*Bare)
	Solos(n int) (l []Solo, m map[string]*Solo)
	Twins(n int) (a Twin, b []*Twin, c map[string]Twin)
	FarShapes(n int) (a *FarShape, b []FarShape)
	Three(i int) (p Pet, s UnionStr, v *Pet)
}

// Impl is a concrete service (methods on a pointer receiver), not an interface.
type Impl struct {
	OnCall func(name string, args ...interface{})
	// Calls is state that every call changes.
	Calls int
}

func (i *Impl) call(name string, args ...interface{}) {
	i.Calls++
	if i.OnCall != nil {
		i.OnCall(name, args...)
	}
}

func (i *Impl) Add(a, b int) int {
	i.call("Add", a, b)
	return a + b
}

func (i *Impl) Concat(w http.ResponseWriter, r *http.Request, parts []string, sep string) (out string, n int) {
	i.call("Concat", parts, sep)
	for k, p := range parts {
		if k > 0 {
			out += sep
		}
		out += p
	}
	return out, len(parts)
}

// Fire is documented.
//
// Deprecated: use anything else.
//
//nolint:all
func (i *Impl) Fire(v string) { i.call("Fire", v) }

// notExported and value receivers never become endpoints.
func (i *Impl) notExported(v string) string { return v }

// Peer has names that are prefixes / suffixes of each other.
type Peer interface {
	Get(v string) string
	GetAll(v string) []string
	Getter(v string) string
	All(v string) string
	// names TypeScript clients cannot have
	Transport(v string) string
	Constructor(a, b string) string
}

// RPC is exposed over GoRPC and TSRPC.
type RPC interface {
	Nop()
	Bool(v bool) bool
	Int(v int) int
	Int64(v int64) int64
	Uint64(v uint64) uint64
	Float64(v float64) float64
	String(v string) string
	Bytes(v []byte) []byte
	Strings(v []string) []string
	Leaf(v Leaf) Leaf
	PLeaf(v *Leaf) *Leaf
	Names(v Names) Names
	ByName(v ByName) ByName
	Plain(v Plain) Plain
	Plains(v []Plain) []Plain
	PlainMap(v map[string]Plain) map[string]Plain
	Two(a, b string) (string, string)
	Mix(a int, b, c string, d []int, e map[string]bool) (ra map[string]bool, rb []int, rc, rd string, re int)
	Http(w http.ResponseWriter, r *http.Request, a string) string
	Wait(id string) string
	Crowd(string, int, string, int, string, int, string, int, string, int, string, int) (string, int, string, int, string, int, string, int, string, int, string, int)
	Herd(a, b, c, d, e, f, g, h, i, j, k, l string) (ra, rb, rc, rd, re, rf, rg, rh, ri, rj, rk, rl string)
}

type Plain struct {
	A int
	B string `json:"b"`
	C []string
	D map[string]int
	E float64
	F bool
	G Leaf
	H []Leaf
	I Str
	J Num
}

// Clock has times in every position.
type Clock interface {
	At(v time.Time) time.Time
	PAt(v *time.Time) *time.Time
	Ats(v []time.Time) []time.Time
	PAts(v []*time.Time) []*time.Time
	AtMap(v map[string]time.Time) map[string]time.Time
	PAtMap(v map[string]*time.Time) map[string]*time.Time
	Nest(v map[int][]time.Time) [][]time.Time
	Span(v Span) Span
	PSpan(v *Span) *Span
	Spans(v []Span) map[string]Span
	Log(v Log) Log
	Two(a time.Time, b *time.Time, c string) (x *time.Time, y time.Time, z []time.Time)
	Http(w http.ResponseWriter, r *http.Request, a time.Time) (at time.Time)
	Since(name string) time.Time
	Book(at time.Time)
}

type (
	Span struct {
		From time.Time  `json:"from"`
		To   *time.Time `json:"to,omitempty"`
	}
	Touched struct {
		Touched time.Time `json:"touched"`
		By      string    `json:"by"`
	}
	Log struct {
		Touched `json:",inline"`
		Spans   []Span               `json:"spans"`
		ByDay   map[string]*Span     `json:"byDay"`
		Marks   map[string]time.Time `json:"marks,omitempty"`
		Days    map[Num][]*time.Time `json:"days"`
		Anon    struct {
			When time.Time `json:"when"`
		} `json:"anon"`
		Zero time.Time   `json:"zero,omitempty"`
		Item other.Dated `json:"item"`
	}
)

// Ext has types that get codec extensions, in every position.
type Ext interface {
	Money(v Money) Money
	PMoney(v *Money) *Money
	Moneys(v []Money) []Money
	PMoneys(v []*Money) []*Money
	MoneyMap(v map[string]Money) map[string]Money
	Temp(v Celsius) Celsius
	PTemp(v *Celsius) *Celsius
	Temps(v []Celsius) map[string]Celsius
	TempLog(v map[string][]Celsius) map[string][]Celsius
	Sum(v Digest) Digest
	Sums(v map[int]*Digest) []Digest
	Wallet(v Wallet) Wallet
	PWallet(v *Wallet) *Wallet
	Wallets(v map[string][]Wallet) []*Wallet
	Mix(a Money, b Celsius, c string, d *Digest, e Wallet) (w Wallet, x *Digest, y string, z Celsius, m Money)
	Plain(v Leaf) Leaf
	Stamp(v time.Time) time.Time
}

type (
	Money struct {
		Cents int64  `json:"cents"`
		Cur   string `json:"cur"`
	}
	Celsius float64
	Digest  struct {
		Algo string `json:"algo"`
		Sum  []byte `json:"sum"`
	}
	Wallet struct {
		Base  `json:",inline"`
		Money Money              `json:"money"`
		Debt  *Money             `json:"debt"`
		Loan  *Money             `json:"loan,omitempty"`
		All   []Money            `json:"all"`
		ByCur map[string]Money   `json:"byCur"`
		Temp  Celsius            `json:"temp"`
		PTemp *Celsius           `json:"ptemp"`
		Hist  map[Str][]Money    `json:"hist"`
		Sum   Digest             `json:"sum"`
		Sums  map[string]*Digest `json:"sums"`
		Inner *Wallet            `json:"inner,omitempty"`
		Leaf  Leaf               `json:"leaf"`
	}
)
