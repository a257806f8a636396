package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

type valueJSON struct {
	V    string       `json:"v"`
	Lang string       `json:"lang,omitempty"`
	Path []string     `json:"path"`
	T    []tripleJSON `json:"t"`
}

type entityJSON struct {
	URI      string                  `json:"uri"`
	Path     []string                `json:"path"`
	T        []tripleJSON            `json:"t"`
	Fields   map[string][]valueJSON  `json:"fields"`
	Children map[string][]entityJSON `json:"children"`
}

// entityOf describes an entity; depth guards against entities that contain themselves
func entityOf(e wisski.Entity, depth int) entityJSON {
	out := entityJSON{URI: S(e.URI), Path: labelsOf(e.Path), T: triplesOf(e.Triples), Fields: map[string][]valueJSON{}, Children: map[string][]entityJSON{}}
	for f, vs := range e.Fields {
		for _, v := range vs {
			value := string(v.Value)
			out.Fields[f] = append(out.Fields[f], valueJSON{V: value, Lang: string(v.Language), Path: labelsOf(v.Path), T: triplesOf(v.Triples)})
		}
	}
	if depth == 0 {
		panic("entity contains itself")
	}
	for b, es := range e.Children {
		for _, c := range es {
			out.Children[b] = append(out.Children[b], entityOf(c, depth-1))
		}
	}
	return out
}

func bundlesOf(data map[string][]wisski.Entity) map[string][]entityJSON {
	out := make(map[string][]entityJSON, len(data))
	for b, es := range data {
		out[b] = []entityJSON{}
		for _, e := range es {
			out[b] = append(out[b], entityOf(e, 20))
		}
	}
	return out
}

// extractRun is one way of extracting
type extractRun struct {
	Via    string `json:"via"`    // "": LoadPathbuilder; "glass": glass.Create
	Engine string `json:"engine"` // of the index
	Store  string `json:"store"`  // of the bundles
	Masked bool   `json:"masked"`
}

type extractItem struct {
	Filler int          `json:"filler"`
	Doc    []Stmt       `json:"doc"`
	PB     []PB         `json:"pb"`
	Runs   []extractRun `json:"runs"`
	Cache  string       `json:"cache"` // directory to use as cache, instead of a new one
}

type extractOut struct {
	Err     string                  `json:"err,omitempty"`
	Bundles map[string][]entityJSON `json:"bundles"`
	Aliases map[string]string       `json:"aliases"`
	Stats   igraph.Stats            `json:"stats"`
}

func (item extractItem) run(run extractRun) (out extractOut) {
	fail := func(err error) extractOut {
		out.Err = err.Error()
		return out
	}
	dir := scratch()
	defer cleanup(dir)
	icache, bcache := "", ""
	for _, c := range []struct {
		on   bool
		path *string
		name string
	}{{run.Engine == "disk", &icache, "index"}, {run.Store == "disk", &bcache, "store"}} {
		if c.on {
			*c.path = filepath.Join(dir, c.name)
			if item.Cache != "" {
				*c.path = item.Cache // the same one for both, as the programs do
				continue
			}
			if err := os.Mkdir(*c.path, 0o777); err != nil {
				return fail(err)
			}
		}
	}
	xml := pbXML(item.PB)
	pb, err := makePB(item.PB)
	if err != nil {
		return fail(err)
	}
	spec := indexSpec{}
	doc := append(fillerDoc(item.Filler), item.Doc...)
	if run.Via == "glass" {
		pbf, nqf := filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
		if err := os.WriteFile(pbf, []byte(xml), 0o666); err != nil {
			return fail(err)
		}
		if err := os.WriteFile(nqf, []byte(nquads(doc)), 0o666); err != nil {
			return fail(err)
		}
		drincw, err := glass.Create(pbf, nqf, icache, viewer.RenderFlags{Predicates: spec.predicates()}, nil)
		if err != nil {
			return fail(err)
		}
		out.Bundles = make(map[string][]entityJSON)
		for _, b := range drincw.Cache.BundleNames() {
			out.Bundles[b] = []entityJSON{}
			for _, e := range drincw.Cache.Entities(b) {
				out.Bundles[b] = append(out.Bundles[b], entityOf(e, 20))
			}
		}
		// the aliases of everything that is mentioned
		out.Aliases = make(map[string]string)
		for _, st := range doc {
			for _, l := range []string{st.S, st.P, st.O} {
				u := U(l)
				if st.K == "d" && l == st.O {
					continue
				}
				for _, a := range drincw.Cache.Aliases(u) {
					out.Aliases[S(a)] = S(drincw.Cache.Canonical(a))
				}
			}
		}
		return out
	}
	var opts sparkl.IndexOptions
	if run.Masked {
		opts.Mask = &pb
	}
	index, err := sparkl.MakeIndex(newMemSource(doc), spec.predicates(), sparkl.NewEngine(icache), opts, nil)
	if err != nil {
		return fail(err)
	}
	if icache != "" {
		defer index.Close()
	}
	data, err := sparkl.LoadPathbuilder(&pb, index, storages.NewBundleEngine(bcache), nil)
	if err != nil {
		return fail(err)
	}
	out.Bundles = bundlesOf(data)
	out.Stats = index.Stats()
	if out.Aliases, err = aliasesOf(index); err != nil {
		return fail(fmt.Errorf("aliases: %w", err))
	}
	return out
}


func init() {
	handle("extract", func(item extractItem) (any, error) {
		outs := make([]extractOut, len(item.Runs))
		for i, r := range item.Runs {
			outs[i] = item.run(r)
		}
		return outs, nil
	})
}
