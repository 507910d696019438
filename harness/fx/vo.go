package fx

import (
	"time"

	"verifharness/fx/other"
)

type (
	Str    string
	Num    int
	Real   float64
	Flag   bool
	Names  []Str
	Matrix [][]int
	ByName map[Str]Num
	Deep   map[Str]map[string][]*Leaf
)

const (
	StrOne Str = "one"
	StrTwo Str = "two"

	NumOne Num = 1
	NumTwo Num = 2
)

type Leaf struct {
	A string  `json:"a"`
	B *int    `json:"b"`
	C *string `json:"c,omitempty"`
}

type Base struct {
	BaseID string `json:"baseId"`
}

type Tree struct {
	Name     string           `json:"name"`
	Children []*Tree          `json:"children"`
	ByKey    map[string]*Tree `json:"byKey,omitempty"`
}

type Rec struct {
	Base   `json:",inline"`
	Bool   bool
	Int    int
	Int8   int8
	Int16  int16
	Int32  int32
	Int64  int64
	Uint   uint
	Uint8  uint8
	Uint16 uint16
	Uint32 uint32
	Uint64 uint64
	F32    float32
	F64    float64
	String string
	Bytes  []byte
	PInt   *int
	PStr   *string
	PLeaf  *Leaf
	Leaf   Leaf `json:"leaf"`
	Leaves []Leaf
	PLeavs []*Leaf             `json:"pleaves"`
	Map    map[string]Leaf     `json:"map"`
	PMap   map[string]*Leaf    `json:"pmap,omitempty"`
	IMap   map[int]string      `json:"imap"`
	Nested map[string][]int    `json:"nested"`
	MM     map[string]ByName   `json:"mm"`
	Str    Str                 `json:"str"`
	Num    Num                 `json:"num,omitempty"`
	Real   Real                `json:"real"`
	Flag   Flag                `json:"flag"`
	Names  Names               `json:"names"`
	Matrix Matrix              `json:"matrix"`
	ByName ByName              `json:"byName"`
	Deep   Deep                `json:"deep"`
	Item   other.Item          `json:"item"`
	PItem  *other.Item         `json:"pitem"`
	Items  []other.Item        `json:"items"`
	List   other.List          `json:"list"`
	Kind   other.Kind          `json:"kind"`
	Levels map[other.Level]int `json:"levels"`
	Anon   struct {
		X int    `json:"x"`
		Y string `json:"y"`
	} `json:"anon"`
	hidden  int
	Skipped string `json:"-"`
}

type Stamped struct {
	At   time.Time   `json:"at"`
	PAt  *time.Time  `json:"pat"`
	OAt  *time.Time  `json:"oat,omitempty"`
	Many []time.Time `json:"many"`
}

// errors
type (
	ScalarErr string
	NumErr    int
	EmptyErr  struct{}
	StructErr struct {
		Msg  string            `json:"msg"`
		Code int               `json:"code"`
		Map  map[string]string `json:"map"`
		List []string          `json:"list"`
	}
	TaggedErr struct {
		Reason string `json:"error_reason"`
		Status int    `json:"http_status"`
	}
	ValueErr struct {
		Msg string `json:"msg"`
		N   int    `json:"n"`
	}
	WrapErr struct {
		Op    string `json:"op"`
		Cause error  `json:"-"`
	}
)

func (e *ScalarErr) Error() string { return string(*e) }
func (e NumErr) Error() string     { return "num error " + string(rune('a'+int(e)%26)) }
func (e EmptyErr) Error() string   { return "empty error" }
func (e *StructErr) Error() string { return e.Msg }
func (e *TaggedErr) Error() string { return "tagged: " + e.Reason }
func (e ValueErr) Error() string   { return e.Msg }
func (e *WrapErr) Error() string {
	if e.Cause == nil {
		return e.Op
	}
	return e.Op + ": " + e.Cause.Error()
}
func (e *WrapErr) Unwrap() error { return e.Cause }

// unions
type (
	UnionStrA string
	UnionStrB string
	UnionStr  struct {
		A *UnionStrA `json:"a,omitempty" gotsrpc:"union"`
		B *UnionStrB `json:"b,omitempty" gotsrpc:"union"`
	}
	CatU struct {
		Kind string `json:"kind" gotsrpc:"type:'cat'"`
		Meow int    `json:"meow"`
	}
	DogU struct {
		Kind string   `json:"kind" gotsrpc:"type:'dog'"`
		Bark []string `json:"bark"`
	}
	Pet struct {
		Cat *CatU `json:"cat,omitempty" gotsrpc:"union"`
		Dog *DogU `json:"dog,omitempty" gotsrpc:"union"`
	}
	Twin     Pet
	FarShape other.Shape
	Bare     struct {
		L Lone    `json:"l,omitempty" gotsrpc:"union"`
		M LoneMap `json:"m,omitempty" gotsrpc:"union"`
	}
	When struct {
		At  *time.Time `json:"at,omitempty" gotsrpc:"union"`
		Cat *CatU      `json:"cat,omitempty" gotsrpc:"union"`
	}
	Since struct {
		Cat CatU      `json:"cat,omitempty" gotsrpc:"union"`
		At  time.Time `json:"at,omitempty" gotsrpc:"union"`
	}
	Solo struct {
		Cat *CatU `json:"cat,omitempty" gotsrpc:"union"`
	}
	Either struct {
		Pet   *Pet         `json:"pet,omitempty" gotsrpc:"union"`
		Shape *other.Shape `json:"shape,omitempty" gotsrpc:"union"`
	}
	Valued struct {
		Cat CatU `json:"cat,omitempty" gotsrpc:"union"`
		Dog DogU `json:"dog,omitempty" gotsrpc:"union"`
	}
	Kennel struct {
		Base `json:",inline"`
		Pet  *Pet `json:"pet,omitempty"`
		Anon struct {
			P Pet `json:"p"`
		} `json:"anon"`
		Lists  map[string][]Pet `json:"lists"`
		Either Either           `json:"either"`
		Owners []*Owner         `json:"owners"`
		Mood   *UnionStr        `json:"mood"`
	}
	Owner struct {
		Name string `json:"name"`
		Pet  Pet    `json:"pet"`
		Pets []Pet  `json:"pets"`
		PPet *Pet   `json:"ppet"`
	}
)

const (
	UnionStrAOne   UnionStrA = "one"
	UnionStrATwo   UnionStrA = "two"
	UnionStrBThree UnionStrB = "three"
	UnionStrBFour  UnionStrB = "four"
)
