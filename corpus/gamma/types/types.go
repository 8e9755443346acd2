package types

type Thing struct {
	Weight float64 `json:"weight"`
	On     bool    `json:"on,omitempty"`
}
