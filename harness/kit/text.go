// Package kit holds what the generated checks share: storages, a recording and
// failing storage wrapper, a reference model, histories, generators and the runner.
package kit

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Text is any byte string. In JSON it is written in ASCII with Go escapes, so
// that a replay file keeps invalid UTF-8 and control characters.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(t))
	return json.Marshal(q[1 : len(q)-1])
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return fmt.Errorf("text %q: %w", s, err)
	}
	*t = Text(u)
	return nil
}

// WellFormed is the documented text domain: valid Unicode, at least one word,
// no empty word between single spaces.
func (t Text) WellFormed() bool { return utf8.ValidString(string(t)) && !t.HasEmptyWord() }

// HasEmptyWord tells that splitting at spaces yields an empty word.
func (t Text) HasEmptyWord() bool {
	for _, w := range strings.Split(string(t), " ") {
		if w == "" {
			return true
		}
	}
	return false
}
