package zzharness

import (
	"strings"

	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func ident(n string) string {
	s := vx.StringOf(n, 1, vx.Param("ident", 2, 3), "aZ_0")
	return s
}

func printLeaf(n string) *expr {
	e := &expr{kind: vx.ConcreteInt(vx.Int(n, 0, 2))}
	if e.kind != eThis {
		e.x = ident(n + ".x")
	}
	if e.kind == eTTU {
		e.y = ident(n + ".y")
	}
	return e
}

func roundTrip(e *expr) {
	text := e.pb().RelationExpression()
	vx.Observe("text", text)
	t, err := parser.Parse(text)
	vx.Assert(err == nil, "the printed form of an expression is not an expression")
	vx.Assert(sameTree(t, e), "the printed form of an expression means another expression")
	vx.Reach("ok")
}

// PrintLeaves: an operator over two leaves with arbitrary identifiers.
func PrintLeaves() {
	e := printLeaf("l")
	if vx.Bool("op") {
		e = symOp("o", e, printLeaf("r"))
	}
	roundTrip(e)
}

func printTree(n string, depth int) *expr {
	if depth == 0 || !vx.Bool(n+".op") {
		switch vx.ConcreteInt(vx.Int(n, 0, 3)) {
		case 0:
			return &expr{kind: eThis}
		case 1:
			return &expr{kind: eCU, x: "a"}
		case 2:
			return &expr{kind: eCU, x: "_thisone"}
		}
		return &expr{kind: eTTU, x: "a", y: "b"}
	}
	return symOp(n+".o", printTree(n+"l", depth-1), printTree(n+"r", depth-1))
}

// PrintTrees: trees of bounded depth keep their shape.
func PrintTrees() {
	roundTrip(printTree("t", vx.Param("depth", 2, 3)))
}

// PrintDeep: deep trees and long identifiers.
func PrintDeep() {
	n := vx.Param("n", 40, 70)
	shape := pick("shape", 4)
	odd := pick("odd", 4) * (n - 1) / 3
	o := pick("op", 3)
	var build func(i int) *expr
	build = func(i int) *expr {
		leaf := &expr{kind: i % 3, x: "a", y: "b"}
		if leaf.kind != eThis && i == odd {
			leaf.x = strings.Repeat("l", n) + vx.StringOf("c", 1, 1, "a_0")
		}
		if i >= n {
			return leaf
		}
		op := i / 3 % 3
		if i == odd {
			op = o
		}
		switch {
		case shape == 0:
			return &expr{kind: eOp, op: op, l: build(i + 1), r: leaf}
		case shape == 1:
			return &expr{kind: eOp, op: op, l: leaf, r: build(i + 1)}
		case shape == 2 && i%2 == 0:
			return &expr{kind: eOp, op: op, l: leaf, r: build(i + 1)}
		case shape == 2:
			return &expr{kind: eOp, op: op, l: build(i + 1), r: leaf}
		}
		// the same operator throughout
		if i%5 == 0 {
			return &expr{kind: eOp, op: o, l: leaf, r: build(i + 1)}
		}
		return &expr{kind: eOp, op: o, l: build(i + 1), r: leaf}
	}
	roundTrip(build(0))
}
