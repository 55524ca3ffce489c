// Package jsonm models the JSON encoder: encoding a value records it.
package jsonm

import (
	"bytes"
	"encoding/json"
	"io"
	"strconv"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

type encoder struct{ w io.Writer }

type encoded struct{ all []any }

// Mark is what encoding the value with a number writes.
func Mark(i int) string { return "<json#" + strconv.Itoa(i) + ">" }

// Encoded returns the values encoded as JSON so far.
func Encoded() []any {
	if l, _ := model.Attached("json.log").(*encoded); l != nil {
		return l.all
	}
	return nil
}

//gosym:replace encoding/json.NewEncoder
func newEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	model.Attach(e, &encoder{w})
	return e
}

//gosym:replace (*encoding/json.Encoder).Encode
func encode(e *json.Encoder, v any) error {
	s, _ := model.Attached(e).(*encoder)
	if s == nil {
		model.Unsupported("a JSON encoder that was not made")
	}
	mark := ""
	model.Quiet(func() {
		l, _ := model.Attached("json.log").(*encoded)
		if l == nil {
			l = new(encoded)
			model.Attach("json.log", l)
		}
		mark = Mark(len(l.all)) + "\n"
		l.all = append(l.all, v)
	})
	_, err := s.w.Write([]byte(mark))
	return err
}

//gosym:replace encoding/json.Marshal
func marshal(v any) ([]byte, error) {
	var b bytes.Buffer
	err := encode(newEncoder(&b), v)
	return bytes.TrimSpace(b.Bytes()), err
}
