// Package htmlm models parsing and rendering HTML: a text given to Put stands for a tree, rendering a tree records it.
package htmlm

import (
	"io"
	"strconv"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
	"golang.org/x/net/html"
)

type table struct {
	docs     [][]*html.Node
	rendered []*html.Node
}

func get() *table {
	t, _ := model.Attached("htmlm.table").(*table)
	if t == nil {
		t = &table{}
		model.Attach("htmlm.table", t)
	}
	return t
}

const prefix = "<html "

// Put makes a text that stands for the nodes.
func Put(nodes ...*html.Node) string {
	t := get()
	t.docs = append(t.docs, nodes)
	return prefix + strconv.Itoa(len(t.docs)-1) + ">"
}

// Rendered returns the nodes rendered so far.
func Rendered() []*html.Node { return get().rendered }

func find(r io.Reader) []*html.Node {
	b, err := io.ReadAll(r)
	s := string(b)
	if err != nil || len(s) <= len(prefix) || s[:len(prefix)] != prefix {
		model.Unsupported("parsing a text that does not stand for nodes")
	}
	n, err := strconv.Atoi(s[len(prefix) : len(s)-1])
	if err != nil {
		model.Unsupported("parsing a text that does not stand for nodes")
	}
	return get().docs[n]
}

//gosym:replace golang.org/x/net/html.ParseFragment
func parseFragment(r io.Reader, context *html.Node) ([]*html.Node, error) { return find(r), nil }

//gosym:replace golang.org/x/net/html.Parse
func parse(r io.Reader) (*html.Node, error) {
	doc := &html.Node{Type: html.DocumentNode}
	for _, n := range find(r) {
		doc.AppendChild(n)
	}
	return doc, nil
}

//gosym:replace golang.org/x/net/html.Render
func render(w io.Writer, n *html.Node) error {
	t := get()
	t.rendered = append(t.rendered, n)
	_, err := io.WriteString(w, "<rendered "+strconv.Itoa(len(t.rendered)-1)+">")
	return err
}
