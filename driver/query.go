package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
)

// tripleJSON is a triple in labels of the specification
type tripleJSON struct {
	L    [3]string `json:"l"` // literal
	C    [3]string `json:"c"` // canonical
	D    *string   `json:"d,omitempty"`
	Lang string    `json:"lang,omitempty"`
	R    int       `json:"r"` // role
	I    bool      `json:"i,omitempty"`
	ID   string    `json:"id"`
}

func tripleOf(t igraph.Triple) tripleJSON {
	out := tripleJSON{
		L:    [3]string{S(t.Subject), S(t.Predicate), S(t.Object)},
		C:    [3]string{S(t.SSubject), S(t.SPredicate), S(t.SObject)},
		Lang: string(t.Language),
		R:    int(t.Role),
		I:    t.Inferred(),
		ID:   strings.TrimSuffix(strings.TrimPrefix(t.ID.String(), "ID("), ")"),
	}
	if t.Role == igraph.Data || t.Datum != "" {
		d := string(t.Datum)
		out.D = &d
	}
	return out
}

func triplesOf(ts []igraph.Triple) []tripleJSON {
	out := make([]tripleJSON, len(ts))
	for i, t := range ts {
		out[i] = tripleOf(t)
	}
	return out
}

func labelsOf(ls []impl.Label) []string {
	out := make([]string, len(ls))
	for i, l := range ls {
		out[i] = S(l)
	}
	return out
}

type pathJSON struct {
	N    []string     `json:"n"`
	E    []string     `json:"e"`
	D    *string      `json:"d,omitempty"`
	Lang string       `json:"lang,omitempty"`
	T    []tripleJSON `json:"t"`
}

func pathOf(p igraph.Path) pathJSON {
	out := pathJSON{N: labelsOf(p.Nodes), E: labelsOf(p.Edges), Lang: string(p.Language), T: triplesOf(p.Triples)}
	if p.HasDatum {
		d := string(p.Datum)
		out.D = &d
	}
	return out
}

// indexSpec says how to make an index from a document
type indexSpec struct {
	Engine  string   `json:"engine"`
	Filler  int      `json:"filler"`
	Doc     []Stmt   `json:"doc"`
	Via     string   `json:"via"` // "": directly, "nq": from a nquads file
	NQ      string   `json:"nq"`  // verbatim nquads instead of a document
	Compact int      `json:"compact"`
	Same    []string `json:"same"` // default: all three
	Inv     []string `json:"inv"`
	Mask    []PB     `json:"mask"`
}

func (spec indexSpec) predicates() sparkl.Predicates {
	same, inv := spec.Same, spec.Inv
	if same == nil {
		same = []string{"same", "eqc", "eqp"}
	}
	if inv == nil {
		inv = []string{"inv"}
	}
	return sparkl.Predicates{SameAs: US(same), InverseOf: US(inv)}
}

// fillerDoc is a document that only uses up identities
func fillerDoc(n int) []Stmt {
	doc := make([]Stmt, n)
	for i := range doc {
		doc[i] = Stmt{K: "r", S: fillerName(i), P: "fill/p", O: "fill/o"}
	}
	return doc
}

func (spec indexSpec) options(pb *pathbuilder.Pathbuilder) sparkl.IndexOptions {
	return sparkl.IndexOptions{CompactInterval: spec.Compact, Mask: pb}
}

// make makes the index; done must be called afterwards
func (spec indexSpec) make() (index *igraph.Index, done func(), err error) {
	dir := scratch()
	cache := ""
	if spec.Engine == "disk" {
		cache = filepath.Join(dir, "cache")
		if err := os.Mkdir(cache, 0o777); err != nil {
			return nil, nil, err
		}
	}
	var pb *pathbuilder.Pathbuilder
	if spec.Mask != nil {
		p, err := makePB(spec.Mask)
		if err != nil {
			return nil, nil, err
		}
		pb = &p
	}
	engine := sparkl.NewEngine(cache)
	doc := append(fillerDoc(spec.Filler), spec.Doc...)
	if spec.Via == "nq" || spec.NQ != "" {
		text := nquads(doc) + spec.NQ
		file := filepath.Join(dir, "data.nq")
		if err := os.WriteFile(file, []byte(text), 0o666); err != nil {
			return nil, nil, err
		}
		index, err = sparkl.LoadIndex(file, spec.predicates(), engine, spec.options(pb), nil)
	} else {
		index, err = sparkl.MakeIndex(newMemSource(doc), spec.predicates(), engine, spec.options(pb), nil)
	}
	if err != nil {
		cleanup(dir)
		return nil, nil, err
	}
	return index, func() {
		if spec.Engine == "disk" {
			index.Close()
		}
		cleanup(dir)
	}, nil
}

// runQuery runs one query
func runQuery(index *igraph.Index, q []string) ([]pathJSON, error) {
	set, err := startQuery(index, q)
	if err != nil {
		return nil, err
	}
	it := set.Paths()
	defer it.Close()
	out := []pathJSON{}
	for it.Next() {
		out = append(out, pathOf(it.Datum()))
	}
	return out, it.Err()
}

func startQuery(index *igraph.Index, q []string) (*igraph.Paths, error) {
	set, err := index.PathsStarting(U("type"), U(q[0]))
	if err != nil {
		return nil, err
	}
	for i := 1; i < len(q); i++ {
		if i%2 == 0 {
			err = set.Ending(U("type"), U(q[i]))
		} else {
			err = set.Connected(U(q[i]))
		}
		if err != nil {
			return nil, err
		}
	}
	return set, nil
}

type queryItem struct {
	indexSpec
	Queries [][]string `json:"queries"`
}

type queryOut struct {
	Err     string            `json:"err,omitempty"`
	Ans     [][]pathJSON      `json:"ans"`
	Aliases map[string]string `json:"aliases"`
	Stats   igraph.Stats      `json:"stats"`
}

func aliasesOf(index *igraph.Index) (map[string]string, error) {
	mp := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&mp); err != nil {
		return nil, err
	}
	out := make(map[string]string)
	mp.Iterate(func(k, v impl.Label) error { out[S(k)] = S(v); return nil })
	return out, nil
}

func init() {
	handle("query", func(item queryItem) (any, error) {
		out := queryOut{Ans: [][]pathJSON{}}
		index, done, err := item.make()
		if err != nil {
			out.Err = err.Error()
			return out, nil
		}
		defer done()
		for _, q := range item.Queries {
			ans, err := runQuery(index, q)
			if err != nil {
				out.Err = fmt.Sprintf("%v: %v", q, err)
			}
			out.Ans = append(out.Ans, ans)
		}
		out.Stats = index.Stats()
		out.Aliases, err = aliasesOf(index)
		if err != nil {
			out.Err = "aliases: " + err.Error()
		}
		return out, nil
	})
}
