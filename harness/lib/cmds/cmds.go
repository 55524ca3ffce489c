// Package cmds helps to run the commands. COPY makes them importable.
package cmds

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// Put makes a directory with a pathbuilder and statements.
func Put(dir string, pb *pathbuilder.Pathbuilder, statements string) {
	b, err := pbxml.Marshal(*pb)
	sym.Assert(err == nil, "the pathbuilder is marshaled")
	osm.Mkdir(dir)
	sym.Assert(osm.WriteFile(dir+"/a.xml", b, 0) == nil, "the pathbuilder is written")
	sym.Assert(osm.WriteFile(dir+"/a.nq", []byte(statements), 0) == nil, "the statements are written")
}
