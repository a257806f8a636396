package main

import (
	"fmt"
	"sort"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
)

// cacheItem makes storages for all bundles of a pathbuilder in a directory, and puts marks into them
type cacheItem struct {
	Dir      string `json:"dir"`
	PB       []PB   `json:"pb"`
	Marks    int    `json:"marks"`    // per storage
	Together bool   `json:"together"` // at the same time
	Again    bool   `json:"again"`    // use the same engine a second time
}

type cacheOut struct {
	Own  [][]string `json:"own"`
	Seen [][]string `json:"seen"`
	Err  string     `json:"err,omitempty"`
}

func init() {
	handle("storages", func(item cacheItem) (any, error) {
		pb, err := makePB(item.PB)
		if err != nil {
			return nil, err
		}
		var bundles []*pathbuilder.Bundle
		var collect func(bs []*pathbuilder.Bundle)
		collect = func(bs []*pathbuilder.Bundle) {
			for _, b := range bs {
				bundles = append(bundles, b)
				collect(b.Bundles())
			}
		}
		collect(pb.Bundles())

		engine := storages.NewBundleEngine(item.Dir)
		rounds := 1
		if item.Again {
			rounds = 2
		}
		var all []cacheOut
		for r := 0; r < rounds; r++ {
			all = append(all, item.round(engine, bundles, r))
		}
		return all, nil
	})
}

func (item cacheItem) round(engine storages.BundleEngine, bundles []*pathbuilder.Bundle, r int) (out cacheOut) {
	n := len(bundles)
	out.Own, out.Seen = make([][]string, n), make([][]string, n)
	ss, errs := make([]storages.BundleStorage, n), make([]error, n)
	each := func(f func(i int)) {
		if !item.Together {
			for i := range bundles {
				f(i)
			}
			return
		}
		var wg sync.WaitGroup
		for i := range bundles {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				f(i)
			}()
		}
		wg.Wait()
	}
	each(func(i int) { ss[i], errs[i] = engine.NewStorage(bundles[i]) })
	for i, err := range errs {
		if err != nil && out.Err == "" {
			out.Err = fmt.Sprintf("NewStorage %q: %v", bundles[i].Path.ID, err)
		}
	}
	defer func() {
		for _, s := range ss {
			if s != nil {
				if err := s.Close(); err != nil && out.Err == "" {
					out.Err = "Close: " + err.Error()
				}
			}
		}
	}()
	if out.Err != "" {
		return out
	}
	fail := make([]error, n)
	each(func(i int) {
		for k := 0; k < item.Marks && fail[i] == nil; k++ {
			mark := fmt.Sprintf("mark %d of %d in %d", k, i, r)
			out.Own[i] = append(out.Own[i], mark)
			fail[i] = ss[i].Add(impl.Label(mark), []impl.Label{impl.Label(mark)}, nil)
		}
	})
	each(func(i int) {
		if fail[i] == nil {
			fail[i] = ss[i].Finalize()
		}
		if fail[i] != nil {
			return
		}
		it := ss[i].Get(-1)
		for it.Next() {
			out.Seen[i] = append(out.Seen[i], string(it.Datum().Label))
		}
		fail[i] = it.Err()
		it.Close()
		sort.Strings(out.Seen[i])
		sort.Strings(out.Own[i])
	})
	for _, err := range fail {
		if err != nil {
			out.Err = err.Error()
		}
	}
	return out
}
