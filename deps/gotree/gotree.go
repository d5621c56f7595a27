// Package gotree is a stand-in for github.com/DiSiqueira/GoTree (the real one is not available offline).
package gotree

import "strings"

// GTStructure is a node of a printable tree.
type GTStructure struct {
	Name  string
	Items []*GTStructure
}

// StringTree renders the tree.
func StringTree(g *GTStructure) string {
	var b strings.Builder
	b.WriteString(g.Name)
	b.WriteByte('\n')
	items(&b, g.Items, "")
	return b.String()
}

func items(b *strings.Builder, it []*GTStructure, pre string) {
	for i, x := range it {
		last := i == len(it)-1
		b.WriteString(pre)
		next := pre
		if last {
			b.WriteString("└── ")
			next += "    "
		} else {
			b.WriteString("├── ")
			next += "│   "
		}
		b.WriteString(x.Name)
		b.WriteByte('\n')
		items(b, x.Items, next)
	}
}
