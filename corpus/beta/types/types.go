package types

type ID int

type Thing struct {
	ID    ID      `json:"id"`
	Label string  `json:"label"`
	Next  []Thing `json:"next"`
}
