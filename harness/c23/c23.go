// Package c23: predicate lists parse into exactly their non-empty trimmed items.
package c23

import (
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// space is the white space of ASCII.
func space(c byte) bool {
	return c == ' ' || '\t' <= c && c <= '\r'
}

// items is what a list states.
func items(value string) (out []string) {
	start := 0
	for i := 0; i <= len(value); i++ {
		if i < len(value) && value[i] != ',' && value[i] != '\n' {
			continue
		}
		a, b := start, i
		for a < b && space(value[a]) {
			a++
		}
		for a < b && space(value[b-1]) {
			b--
		}
		if a < b {
			out = append(out, value[a:b])
		}
		start = i + 1
	}
	return
}

func check(value string, want []string) {
	got := sparkl.ParsePredicateString(value)
	sym.Assert(len(got) == len(want), "as many items")
	for i := range want {
		sym.Assert(string(got[i]) == want[i], "the items in order")
	}
	switch {
	case len(want) == 0:
		sym.Cover("?none")
	case len(want) == 1:
		sym.Cover("?one")
	default:
		sym.Cover("?more")
	}
}

// H_Any: all short lists.
// Bounds: all ASCII strings of up to 4 (thorough: 5) bytes.
//gosym:time=150
func H_Any() {
	n := sym.Choose("n", 5+sym.Tier())
	s := sym.String("value", n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 128)
	}
	check(s, items(s))
}

// H_Long: longer lists over the characters that matter.
// Bounds: all strings of 5 (thorough: 6) characters among separators, white space and two letters.
//gosym:time=150
func H_Long() {
	s := sym.Alpha("value", 5+sym.Tier(), ",\n \tab")
	check(s, items(s))
}

// H_Unicode: items with characters of several bytes, white space among them.
// Bounds: lists of two items around one of the separators, each item one of a few texts with such characters in any position.
func H_Unicode() {
	raw := []string{"\u00a0ä\u2003", "ä ö", "\u3000", "\u0085x", "ä", "\u200b", "日本 語", "\xff"}
	trimmed := []string{"ä", "ä ö", "", "x", "ä", "\u200b", "日本 語", "\xff"}
	i, j := sym.Choose("i", len(raw)), sym.Choose("j", len(raw))
	var want []string
	for _, k := range []int{i, j} {
		if trimmed[k] != "" {
			want = append(want, trimmed[k])
		}
	}
	check(raw[i]+[]string{",", "\n", ", ", "\r\n", ",\n"}[sym.Choose("sep", 5)]+raw[j], want)
}

// H_Join: clean lists joined with either separator.
// Bounds: up to 3 items of up to 3 arbitrary ASCII bytes that begin and end without white space and hold no separator, each pair joined with an arbitrary separator.
//gosym:time=150
func H_Join() {
	var s string
	var want []string
	for n := sym.Choose("items", 4); n > 0; n-- {
		k := 1 + sym.Choose("len", 2+sym.Tier())
		it := sym.String("item", k)
		for i := 0; i < k; i++ {
			sym.Assume(sym.And(it[i] < 128, it[i] != ',', it[i] != '\n'))
		}
		for _, c := range []byte{it[0], it[k-1]} {
			sym.Assume(sym.And(c != ' ', sym.Or(c < '\t', c > '\r')))
		}
		if len(want) > 0 {
			s += sym.Alpha("sep", 1, ",\n")
		}
		s += it
		want = append(want, it)
	}
	check(s, want)
}
