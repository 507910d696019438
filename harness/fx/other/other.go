// Package other holds types the fixture service uses from another package.
package other

import "time"

type (
	Kind   string
	Level  int
	List   []Item
	Index  map[string]Item
	Levels map[Level]Kind
	Item   struct {
		ID    string   `json:"id"`
		Score float64  `json:"score"`
		Tags  []string `json:"tags"`
		Kind  Kind     `json:"kind,omitempty"`
	}
)

const (
	KindA Kind = "a"
	KindB Kind = "b"

	LevelLow  Level = 1
	LevelHigh Level = 2
)

type Dated struct {
	On  time.Time   `json:"on"`
	Ons []time.Time `json:"ons"`
}

// Shape is a union of three.
type (
	Shape struct {
		Circle *Circle `json:"circle,omitempty" gotsrpc:"union"`
		Square *Square `json:"square,omitempty" gotsrpc:"union"`
		Poly   *Poly   `json:"poly,omitempty" gotsrpc:"union"`
	}
	Circle struct {
		Type string  `json:"type" gotsrpc:"type:'circle'"`
		R    float64 `json:"r"`
	}
	Square struct {
		Type string `json:"type" gotsrpc:"type:'square'"`
		Side int    `json:"side"`
		On   *Kind  `json:"on,omitempty"`
	}
	Poly struct {
		Type   string             `json:"type" gotsrpc:"type:'poly'"`
		Points map[string][]Point `json:"points"`
		Inner  []Shape            `json:"inner"`
	}
	Point struct {
		X int `json:"x"`
		Y int `json:"y"`
	}
)

// Fault is an error type declared away from the service.
type Fault struct {
	Code  int               `json:"code"`
	Where string            `json:"where"`
	Meta  map[string]string `json:"meta"`
}

func (f *Fault) Error() string { return "fault at " + f.Where }
