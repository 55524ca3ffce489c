// Package tmpl models html/template: executing a template records the data it is given and writes its name.
package tmpl

import (
	"html/template"
	"io"
	"io/fs"
	"strconv"
	"text/template/parse"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

// Rendered is one execution of a template. The mark is what it writes.
type Rendered struct {
	Name string
	Data any
	Mark string
}

type state struct{ name string }

type log struct{ all []Rendered }

func make_(name string) *template.Template {
	t := new(template.Template)
	model.Attach(t, &state{name})
	return t
}

func name(t *template.Template) string {
	s, _ := model.Attached(t).(*state)
	if s == nil {
		model.Unsupported("a template that was not made")
	}
	return s.name
}

// All returns what was rendered so far.
func All() []Rendered {
	if l, _ := model.Attached("tmpl.log").(*log); l != nil {
		return l.all
	}
	return nil
}

//gosym:replace html/template.New
func newTemplate(name string) *template.Template { return make_(name) }

//gosym:replace (*html/template.Template).New
func newAssociated(t *template.Template, name string) *template.Template { return make_(name) }

//gosym:replace (*html/template.Template).Funcs
func funcs(t *template.Template, m template.FuncMap) *template.Template {
	model.Attach("tmpl.funcs", m)
	return t
}

// Func is a function that templates were given last.
func Func(name string) any {
	m, _ := model.Attached("tmpl.funcs").(template.FuncMap)
	return m[name]
}

//gosym:replace (*html/template.Template).ParseFS
func parseFS(t *template.Template, f fs.FS, patterns ...string) (*template.Template, error) {
	return t, nil
}

//gosym:replace (*html/template.Template).Parse
func parseText(t *template.Template, text string) (*template.Template, error) { return t, nil }

//gosym:replace (*html/template.Template).Templates
func templates(t *template.Template) []*template.Template { return nil }

//gosym:replace (*html/template.Template).AddParseTree
func addParseTree(t *template.Template, name string, tree *parse.Tree) (*template.Template, error) {
	return t, nil
}

//gosym:replace (*html/template.Template).Name
func getName(t *template.Template) string { return name(t) }

//gosym:replace (*html/template.Template).Execute
func execute(t *template.Template, w io.Writer, data any) error {
	n, mark := name(t), ""
	model.Quiet(func() {
		l, _ := model.Attached("tmpl.log").(*log)
		if l == nil {
			l = new(log)
			model.Attach("tmpl.log", l)
		}
		mark = "<" + n + "#" + strconv.Itoa(len(l.all)) + ">"
		l.all = append(l.all, Rendered{n, data, mark})
	})
	_, err := io.WriteString(w, mark)
	return err
}
