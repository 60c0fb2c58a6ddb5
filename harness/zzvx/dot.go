package zzvx

import (
	"github.com/awalterschulze/gographviz"
)

// DotEdge is one edge of a DOT document.
type DotEdge struct{ Src, Dst string }

// Dot is the content of a DOT document.
type Dot struct {
	Valid bool
	Nodes map[string]string // name -> label
	Order []string
	Edges []DotEdge
}

type gvRec struct {
	order  []string
	labels map[string]string
	edges  []DotEdge
	bad    bool
}

var gvRecs map[*gographviz.Graph]*gvRec

func GVNewGraph() *gographviz.Graph {
	if gvRecs == nil {
		gvRecs = map[*gographviz.Graph]*gvRec{}
	}
	g := &gographviz.Graph{}
	gvRecs[g] = &gvRec{labels: map[string]string{}}
	return g
}
func GVSetDir(g *gographviz.Graph, dir bool) error       { return nil }
func GVSetStrict(g *gographviz.Graph, strict bool) error { return nil }
func GVSetName(g *gographviz.Graph, name string) error   { return nil }

// goodID says whether s is a DOT identifier (plain, numeric or quoted).
func goodID(s string) bool {
	if len(s) == 0 {
		return false
	}
	if s[0] == '"' {
		if len(s) < 2 || s[len(s)-1] != '"' {
			return false
		}
		for i := 1; i < len(s)-1; i++ {
			if s[i] == '"' {
				return false
			}
			if s[i] == '\\' {
				i++
				if i >= len(s)-1 {
					return false
				}
			}
		}
		return true
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
		digit := c >= '0' && c <= '9'
		if !alpha && !(digit && i > 0) {
			return allDigits(s)
		}
	}
	return true
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func GVAddNode(g *gographviz.Graph, parent string, name string, attrs map[string]string) error {
	r := gvRecs[g]
	if !goodID(name) {
		r.bad = true
	}
	if _, ok := r.labels[name]; !ok {
		r.order = append(r.order, name)
	}
	l := attrs["label"]
	if _, ok := attrs["label"]; ok && !goodID(l) {
		r.bad = true
	}
	r.labels[name] = l
	return nil
}
func GVAddEdge(g *gographviz.Graph, src, dst string, directed bool, attrs map[string]string) error {
	r := gvRecs[g]
	if !goodID(src) || !goodID(dst) {
		r.bad = true
	}
	r.edges = append(r.edges, DotEdge{src, dst})
	return nil
}
func GVString(g *gographviz.Graph) string { return opaque("dot", gvRecs[g]) }

// ReadDot reads a DOT document back.
func ReadDot(doc string) *Dot {
	if Symbolic() {
		if !isBlock("dot", doc) {
			return &Dot{}
		}
		r := blockPayload(doc).(*gvRec)
		return &Dot{Valid: !r.bad, Nodes: r.labels, Order: r.order, Edges: r.edges}
	}
	return readDotNative(doc)
}

func readDotNative(doc string) *Dot {
	g, err := gographviz.Read([]byte(doc))
	if err != nil {
		return &Dot{}
	}
	d := &Dot{Valid: true, Nodes: map[string]string{}}
	for _, n := range g.Nodes.Nodes {
		d.Nodes[n.Name] = n.Attrs["label"]
		d.Order = append(d.Order, n.Name)
	}
	for _, e := range g.Edges.Edges {
		d.Edges = append(d.Edges, DotEdge{e.Src, e.Dst})
	}
	return d
}
