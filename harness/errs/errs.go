// Package errs holds error types the monitors let services return.
package errs

type (
	In struct {
		X int64    `json:"x"`
		Y []string `json:"y,omitempty"`
	}
	Rich struct {
		In   `json:",inline"`
		B    bool              `json:"b"`
		U    uint64            `json:"uu"`
		I8   int8              `json:"i8"`
		I    int               `json:"the_int"`
		F    float64           `json:"f"`
		S    string            `json:"some-string"`
		SS   []string          `json:"ss"`
		M    map[string]string `json:"m"`
		IN   In                `json:"in"`
		INs  []In              `json:"ins"`
		INm  map[string]In     `json:"inm"`
		P    *int              `json:"p"`
		PS   *In               `json:"ps,omitempty"`
		PIs  []*In             `json:"pis"`
		Bare string
		MM   map[string][]int `json:"mm"`
		SSS  [][]string       `json:"sss"`
		Any  interface{}      `json:"any"`
		skip int
		Not  string `json:"-"`
	}
	// Coded has an error code.
	Coded struct {
		Text string
		Code int
	}
	// Lone has nothing but a pointer.
	Lone struct {
		In *In `json:"in,omitempty"`
	}
	LoneMap struct {
		In map[string]*In `json:"in,omitempty"`
	}
	List []string
	Dict map[string]int
	Kind string
	Same struct{ V int }
	// Causer wraps.
	Causer struct {
		Op    string `json:"op"`
		At    int    `json:"at"`
		Inner error  `json:"-"`
	}
)

func (e *Rich) Error() string   { return "rich " + e.S }
func (e Coded) Error() string   { return e.Text }
func (e Coded) ErrorCode() int  { return e.Code }
func (e Lone) Error() string    { return "lone" }
func (e LoneMap) Error() string { return "lone map" }
func (e List) Error() string    { return "list" }
func (e Dict) Error() string    { return "dict" }
func (e Kind) Error() string    { return "kind " + string(e) }
func (e *Same) Error() string   { return "same" }
func (e *Causer) Unwrap() error { return e.Inner }
func (e *Causer) Error() string { return e.Op + " <- " + e.Inner.Error() }
