package core

import (
	"encoding/json"
	"errors"
)

// Bin is a byte string that survives JSON: each byte is written as the code point of
// the same number.
type Bin string

// MarshalJSON implements json.Marshaler.
func (b Bin) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = rune(b[i])
	}
	return json.Marshal(string(r))
}

// UnmarshalJSON implements json.Unmarshaler.
func (b *Bin) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, c := range s {
		if c > 255 {
			return errors.New("not a byte")
		}
		out = append(out, byte(c))
	}
	*b = Bin(out)
	return nil
}
