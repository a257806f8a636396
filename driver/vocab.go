package main

import (
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
)

// The specification talks about short labels; the code about URIs.
// U maps the first to the second, S the other way around.

const ns = "http://v.example/"

var special = map[string]string{
	"type": "http://www.w3.org/1999/02/22-rdf-syntax-ns#type",
	"same": "http://www.w3.org/2002/07/owl#sameAs",
	"eqc":  "http://www.w3.org/2002/07/owl#equivalentClass",
	"eqp":  "http://www.w3.org/2002/07/owl#equivalentProperty",
	"inv":  "http://www.w3.org/2002/07/owl#inverseOf",
}
var unspecial = map[string]string{}

func init() {
	for k, v := range special {
		unspecial[v] = k
	}
}

// U turns a label of the specification into a label of the code.
func U(l string) impl.Label {
	if l == "" || l == "-" {
		return ""
	}
	if v, ok := special[l]; ok {
		return impl.Label(v)
	}
	if strings.Contains(l, "://") {
		return impl.Label(l)
	}
	return impl.Label(ns + l)
}

// S turns a label of the code into a label of the specification.
func S(l impl.Label) string {
	if v, ok := unspecial[string(l)]; ok {
		return v
	}
	return strings.TrimPrefix(string(l), ns)
}

func US(ls []string) []impl.Label {
	out := make([]impl.Label, len(ls))
	for i, l := range ls {
		out[i] = U(l)
	}
	return out
}
