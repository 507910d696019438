package fx

import (
	"time"

	"verifharness/fx/other"
)

// Shapes has every other form of type there is.
type Shapes interface {
	Rune(v rune) rune
	Runes(v []rune) []rune
	Fixed(v [3]int) [3]int
	FixedLeaf(v [2]Leaf) [2]*Leaf
	Hash(v Hash, w [4]byte) map[string][2]byte
	PHash(v *Hash) []*Hash
	Blob(v Blob) Blob
	Blobs(v []Blob) map[string]Blob
	BoolKeys(v map[bool]string) map[Flag]int
	NumKeys(v map[Num][]Real) map[Num]*Leaf
	StrKeys(v map[Str]bool) map[other.Kind][]Str
	Anything(v Anything) []Anything
	PStr(v *Str) *Str
	PNum(v *Num, w *Real) (*Num, *Flag)
	PTime(v *time.Time) map[string]*time.Time
	LeafToo(v LeafToo) *LeafToo
	NamesToo(v NamesToo) []NamesToo
	StrToo(v StrToo) map[StrToo]StrToo
	ByNameToo(v map[string]ByNameToo) ByNameToo
	Grid(v Grid) Grid
	PGrid(v []*Grid) map[string]Grid
	Ptrs(v *[]string, w *map[string]int, x *[2]Leaf) (*[]*Leaf, *[]byte, *map[Str]Num)
	Embeds(v Embeds) *Embeds
	Plain(v EmbedsPlain) EmbedsPlain
	Tagged(v EmbedsTagged) []EmbedsTagged
	Far(v EmbedsFar) EmbedsFar
	Ptr(v EmbedsPtr) EmbedsPtr
	Odd(v EmbedsOther) map[string]EmbedsOther
	Inner(v Outer) Outer
	Unnamed(string, int) (bool, []string)
	Mixed(_ string, b Str, _ *Leaf) (x Num, _ string)
	Chain(v Chain) *Chain
	Several(v Several) (a, b *Several, c map[string]Several)
	Fars(v Fars, w *FarItem, x FarItems, y FarKind, z FarMoment) (*Fars, FarIndex, []FarKind, *FarAlias, FarFar)
	// more than ten of everything
	Crowd(string, int, string, int, string, int, string, int, string, int, string, int, string) (string, int, string, int, string, int, string, int, string, int, string, int, string)
	Herd(a, b, c, d, e, f, g, h, i, j, k, l, m string) (ra, rb, rc, rd, re, rf, rg, rh, ri, rj, rk, rl, rm string)
	Wide(v Wide) *Wide
	One(v One, w [1]*int) (OneMap, [1]map[string]int)
	Lone(v Lone, w LoneMap, x [1]Lone) (Lone, LoneMap, [1]LoneMap)
	Lones(v *Lone, w []LoneMap, x map[string]Lone) (*LoneMap, Lones)
	Ones(v []One, w OneMap, x [1]One) (map[string]OneMap, [1]OneMap)
}

type (
	Blob []byte
	Hash [8]byte
	One  struct {
		P *Leaf `json:"p"`
	}
	OneMap struct {
		M map[string]One `json:"m"`
	}
	Lone struct {
		P *Leaf `json:"p,omitempty"`
	}
	LoneMap struct {
		M map[string]Lone `json:"m,omitempty"`
	}
	Lones struct {
		L *Lone `json:"l,omitempty"`
	}
	Three     [3]int
	Anything  interface{}
	LeafToo   Leaf
	NamesToo  Names
	StrToo    Str
	ByNameToo ByName
	// defined as types of another package
	FarItem   other.Item
	FarItems  other.List
	FarIndex  other.Index
	FarKind   other.Kind
	FarLevels other.Levels
	FarAlias  = other.Dated
	FarMoment = time.Time
	FarFar    FarItem
	Fars      struct {
		FarItem
		Items  FarItems           `json:"items"`
		Index  *FarIndex          `json:"index,omitempty"`
		Kinds  map[FarKind]FarFar `json:"kinds"`
		Levels []FarLevels        `json:"levels"`
		Dated  *FarAlias          `json:"dated"`
		At     FarMoment          `json:"at"`
		Ats    []*FarMoment       `json:"ats,omitempty"`
	}
	inner struct {
		In   int    `json:"in"`
		Code code   `json:"code"`
		Tag  string `json:"tag,omitempty"`
	}
	code string
)

const (
	codeA code = "A"
	codeB code = "B"
)

// Outer has fields of types nobody else can name.
type Outer struct {
	Inner  inner            `json:"inner"`
	PInner *inner           `json:"pinner"`
	Inners []inner          `json:"inners"`
	ByCode map[code]inner   `json:"byCode"`
	Code   code             `json:"code"`
	PCode  *code            `json:"pcode,omitempty"`
	Codes  map[string]*code `json:"codes,omitempty"`
}

type Grid struct {
	Fixed     [2]string                   `json:"fixed"`
	Hash      Hash                        `json:"hash"`
	PHash     *Hash                       `json:"phash"`
	OFix      [2]string                   `json:"ofix,omitempty"`
	Three     Three                       `json:"three"`
	PThree    *Three                      `json:"pthree"`
	PFix      *[3]bool                    `json:"pfix"`
	PSlice    *[]string                   `json:"pslice"`
	PMap      *map[string]int             `json:"pmap,omitempty"`
	FixedLeaf [2]Leaf                     `json:"fixedLeaf"`
	Square    [2][2]float64               `json:"square"`
	Runes     []rune                      `json:"runes"`
	I8s       []int8                      `json:"i8s,omitempty"`
	Blob      Blob                        `json:"blob"`
	OBlob     Blob                        `json:"oblob,omitempty"`
	Chunks    [][]byte                    `json:"chunks"`
	Any       interface{}                 `json:"any"`
	OAny      interface{}                 `json:"oany,foo,omitempty,bar"`
	Anys      map[string][]interface{}    `json:"anys"`
	Thing     Anything                    `json:"thing"`
	Kebab     int                         `json:"ke-bab"`
	Dotted    *string                     `json:"do.tt.ed,omitempty"`
	Digit     string                      `json:"1st"`
	Dollar    Str                         `json:"$ref"`
	Class     bool                        `json:"class"`
	Other     []map[string]*other.Item    `json:",omitempty"`
	YAML      string                      `yaml:"yaml,omitempty"`
	PStr      *Str                        `json:"pstr"`
	POStr     *other.Kind                 `json:"postr,omitempty"`
	Zero      time.Time                   `json:"zero,omitempty"`
	Times     map[Num][]*time.Time        `json:"times"`
	Leaf      Leaf                        `json:"leaf,omitempty"`
	Keyed     map[other.Level]map[Str]int `json:"keyed"`
	OZero     int                         `json:"ozero,omitzero"`
	OEmpt     *Leaf                       `json:"oempt,omitemptyy,Omitempty"`
	OSpace    []string                    `json:"ospace, omitempty"`
	Spaced    bool                        `json:" sp aced "`
	ODash     bool                        `json:" -"`
	OInline   Leaf                        `json:"oinline,inline"`
	PInline   *Leaf                       `json:"pinline,inline"`
	OXML      string                      `json:"oxml" xml:"-,omitempty"`
	ONum      Num                         `json:"onum,omitempty,omitzero"`
	OFlag     bool                        `json:"oflag,omitempty"`
	OStr      Str                         `json:"ostr,omitempty"`
	Rows      []struct {
		X int     `json:"x"`
		Y *string `json:"y"`
	} `json:"rows"`
	Cells map[string]struct {
		V []int `json:"v"`
	} `json:"cells"`
	PAnon *struct {
		Deep struct {
			P *Leaf `json:"p"`
		} `json:"deep"`
	} `json:"panon"`
	A, B, C int
	D, e    string
	Skipped chan int `json:"-"`
	Dash    string   `json:"-,"`
	Codec   int      `codec:"codec_name" json:"json_name"`
	Quoted  int      "json:\"quo\""
}

type Embeds struct {
	Base  `json:",inline"`
	inner `json:",inline"`
	Own   string `json:"own"`
}

type EmbedsPlain struct {
	Base
	Touched
	Own string `json:"own"`
}

type EmbedsTagged struct {
	Base     `json:"base"`
	*Touched `json:"touched,omitempty"`
	Own      string `json:"own"`
}

type EmbedsOther struct {
	Str
	Names  `json:",omitempty"`
	ByName `json:"byName"`
	*Num   `json:"num,omitempty"`
	other.Kind
	code
	Own struct {
		Base
		X int `json:"x"`
	} `json:"own"`
}

type EmbedsPtr struct {
	*Base    `json:",inline"`
	*Touched `json:",inline,omitempty"`
	Own      string `json:"own"`
}

type EmbedsFar struct {
	other.Dated `json:",inline"`
	EmbedsMore  `json:",inline"`
	Own         string `json:"own"`
}

type EmbedsMore struct {
	Base `json:",inline"`
	More []Str `json:"more"`
}

type Chain struct {
	Next  *Chain           `json:"next,omitempty"`
	All   []Chain          `json:"all"`
	ByKey map[Str]*Chain   `json:"byKey"`
	Far   map[string]Chain `json:"far,omitempty"`
}

// Several declares several fields at once.
type Several struct {
	a, First, Second       string
	Third, b, Fourth       int `json:",omitempty"`
	c, _, Fifth            *Several
	Sixth, Seventh, Eighth map[Str][]Num
	d                      chan func()
}

// Wide has more fields than fit a byte's worth of anything.
type Wide struct {
	F0  string         `json:"f0,omitempty"`
	F1  int            `json:"f1"`
	F2  *Leaf          `json:"f2"`
	F3  []string       `json:"f3,omitempty"`
	F4  map[string]int `json:"f4"`
	F5  bool           `json:"f5"`
	F6  float64        `json:"f6,omitempty"`
	F7  Str            `json:"f7"`
	F8  string         `json:"f8"`
	F9  int            `json:"f9,omitempty"`
	F10 *Leaf          `json:"f10"`
	F11 []string       `json:"f11"`
	F12 map[string]int `json:"f12,omitempty"`
	F13 bool           `json:"f13"`
	F14 float64        `json:"f14"`
	F15 Str            `json:"f15,omitempty"`
	F16 string         `json:"f16"`
	F17 int            `json:"f17"`
	F18 *Leaf          `json:"f18,omitempty"`
	F19 []string       `json:"f19"`
	F20 map[string]int `json:"f20"`
	F21 bool           `json:"f21,omitempty"`
	F22 float64        `json:"f22"`
	F23 Str            `json:"f23"`
	F24 string         `json:"f24,omitempty"`
	F25 int            `json:"f25"`
	F26 *Leaf          `json:"f26"`
	F27 []string       `json:"f27,omitempty"`
	F28 map[string]int `json:"f28"`
	F29 bool           `json:"f29"`
	F30 float64        `json:"f30,omitempty"`
	F31 Str            `json:"f31"`
	F32 string         `json:"f32"`
	F33 int            `json:"f33,omitempty"`
	F34 *Leaf          `json:"f34"`
	F35 []string       `json:"f35"`
	F36 map[string]int `json:"f36,omitempty"`
	F37 bool           `json:"f37"`
	F38 float64        `json:"f38"`
	F39 Str            `json:"f39,omitempty"`
}
