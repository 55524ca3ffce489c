// Package pbm models the XML encoding of pathbuilders: a marshaled
// pathbuilder is a text that stands for it, any other text is malformed.
package pbm

import (
	"errors"
	"os"
	"strconv"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/zverif/model"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/osm"
)

type table struct{ all []pathbuilder.Pathbuilder }

// SetText chooses the text of every pathbuilder marshaled from now on.
func SetText(s string) { model.Attach("pbm.text", s) }

const prefix, suffix = "<pathbuilder ", "/>"

// Marshal gives the text of a pathbuilder.
//gosym:replace github.com/FAU-CDI/drincw/pathbuilder/pbxml.Marshal
func Marshal(pb pathbuilder.Pathbuilder) ([]byte, error) {
	if s, ok := model.Attached("pbm.text").(string); ok {
		return []byte(s), nil
	}
	t, _ := model.Attached("pbm.table").(*table)
	if t == nil {
		t = &table{}
		model.Attach("pbm.table", t)
	}
	t.all = append(t.all, pb)
	return []byte(prefix + strconv.Itoa(len(t.all)-1) + suffix), nil
}

//gosym:replace github.com/FAU-CDI/drincw/pathbuilder/pbxml.Unmarshal
func Unmarshal(data []byte) (pb pathbuilder.Pathbuilder, err error) {
	t, _ := model.Attached("pbm.table").(*table)
	s := string(data)
	if t == nil || len(s) < len(prefix)+len(suffix)+1 || s[:len(prefix)] != prefix || s[len(s)-len(suffix):] != suffix {
		return pb, errors.New("malformed XML")
	}
	n, err := strconv.Atoi(s[len(prefix) : len(s)-len(suffix)])
	if err != nil || n < 0 || n >= len(t.all) {
		return pb, errors.New("malformed XML")
	}
	return t.all[n], nil
}

//gosym:replace github.com/FAU-CDI/drincw/pathbuilder/pbxml.Load
func Load(path string) (pb pathbuilder.Pathbuilder, err error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return pb, err
	}
	return Unmarshal(data)
}
