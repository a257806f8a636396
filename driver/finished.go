package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/tkw1536/pkglib/traversal"
)

// finishedItem is a history of an index
type finishedItem struct {
	Engine  string     `json:"engine"`
	Ops     []Stmt     `json:"ops"` // k: one of r, d, same, inv, compact, fin, pmask, dmask, query
	Queries [][]string `json:"queries"`

	Turns  []int `json:"turns"`  // afterwards: let query slot i take a step; -i-1: abandon it
	Slots  []int `json:"slots"`  // query of every slot
	Hammer int   `json:"hammer"` // afterwards: number of goroutines asking all queries at the same time
	Rounds int   `json:"rounds"`
	Seed   int64 `json:"seed"`
}

// finishedEvent is something that happened
type finishedEvent struct {
	K   string `json:"k"`   // operation
	R   string `json:"r"`   // ok, refused, or what else came out
	Q   int    `json:"q"`   // query
	Ans int    `json:"ans"` // number of the answer, see finishedOut.Answers
	All bool   `json:"all"` // has the query been asked to its end?
}

type finishedOut struct {
	Events  []finishedEvent `json:"events"`
	Answers []string        `json:"answers"` // sorted paths
	Err     string          `json:"err,omitempty"`

	l sync.Mutex
	n map[string]int
}

func (out *finishedOut) add(e finishedEvent) {
	out.l.Lock()
	defer out.l.Unlock()
	out.Events = append(out.Events, e)
}

// number returns the number of an answer
func (out *finishedOut) number(paths []string) int {
	sort.Strings(paths)
	if paths == nil {
		paths = []string{}
	}
	raw, _ := json.Marshal(paths)
	out.l.Lock()
	defer out.l.Unlock()
	n, ok := out.n[string(raw)]
	if !ok {
		n = len(out.Answers)
		out.n[string(raw)] = n
		out.Answers = append(out.Answers, string(raw))
	}
	return n
}

func refusal(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

// mutate does one operation
func mutate(index *igraph.Index, op Stmt) string {
	switch op.K {
	case "r":
		return refusal(index.AddTriple(U(op.S), U(op.P), U(op.O)))
	case "d":
		if op.L == "" {
			return refusal(index.AddData(U(op.S), U(op.P), impl.Datum(op.O)))
		}
		return refusal(index.AddLangData(U(op.S), U(op.P), impl.Datum(op.O), impl.Language(op.L)))
	case "same":
		return refusal(index.MarkIdentical(U(op.S), U(op.O)))
	case "inv":
		return refusal(index.MarkInverse(U(op.S), U(op.O)))
	case "compact":
		return refusal(index.Compact())
	case "fin":
		return refusal(index.Finalize())
	}
	return "unknown operation"
}

func pathString(p igraph.Path) string {
	raw, _ := json.Marshal(pathOf(p))
	return string(raw)
}

// ask asks a query, and takes at most n of its paths
func (out *finishedOut) ask(index *igraph.Index, q int, query []string, n int, abandon bool) {
	out.add(finishedEvent{K: "begin", Q: q})
	set, err := startQuery(index, query)
	if err != nil {
		out.add(finishedEvent{K: "end", Q: q, R: "error: " + err.Error()})
		return
	}
	it := set.Paths()
	if !abandon {
		defer it.Close()
	}
	var paths []string
	all := true
	for {
		if n >= 0 && len(paths) >= n {
			all = false
			break
		}
		if !it.Next() {
			break
		}
		paths = append(paths, pathString(it.Datum()))
	}
	r := "ok"
	if all {
		if err := it.Err(); err != nil {
			r = "error: " + err.Error()
		}
	}
	out.add(finishedEvent{K: "end", Q: q, R: r, Ans: out.number(paths), All: all})
}

func (item finishedItem) run(index *igraph.Index, out *finishedOut) {
	other := func(e *finishedEvent) {
		if p := recover(); p != nil {
			e.R = fmt.Sprint("panic: ", p)
			out.add(*e)
		}
	}
	for _, op := range item.Ops {
		func() {
			e := finishedEvent{K: op.K}
			defer other(&e)
			if op.K == "query" {
				for q, query := range item.Queries {
					e.Q = q
					out.ask(index, q, query, -1, false)
				}
				return
			}
			e.R = mutate(index, op)
			out.add(e)
		}()
	}

	// one step of one query after the other
	its := make(map[int]traversal.Iterator[igraph.Path])
	paths := make([][]string, len(item.Slots))
	over := make([]bool, len(item.Slots))
	end := func(s int, all bool, r string) {
		over[s] = true
		out.add(finishedEvent{K: "end", Q: item.Slots[s], R: r, Ans: out.number(paths[s]), All: all})
	}
	for _, t := range item.Turns {
		s, abandon := t, false
		if t < 0 {
			s, abandon = -t-1, true
		}
		if over[s] {
			continue
		}
		it, ok := its[s]
		if !ok {
			out.add(finishedEvent{K: "begin", Q: item.Slots[s]})
			set, err := startQuery(index, item.Queries[item.Slots[s]])
			if err != nil {
				end(s, false, "error: "+err.Error())
				continue
			}
			it = set.Paths()
			its[s] = it
		}
		switch {
		case abandon:
			it.Close()
			end(s, false, "ok")
		case it.Next():
			paths[s] = append(paths[s], pathString(it.Datum()))
		case it.Err() != nil:
			end(s, true, "error: "+it.Err().Error())
		default:
			end(s, true, "ok")
		}
	}

	// everything at the same time
	var wg sync.WaitGroup
	for g := 0; g < item.Hammer; g++ {
		rng := rand.New(rand.NewSource(item.Seed + int64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < item.Rounds; r++ {
				for range item.Queries {
					q := rng.Intn(len(item.Queries))
					n := -1
					if rng.Intn(3) == 0 {
						n = rng.Intn(3)
					}
					func() {
						e := finishedEvent{K: "end", Q: q}
						defer other(&e)
						out.ask(index, q, item.Queries[q], n, rng.Intn(2) == 0)
					}()
				}
				// and what is refused
				for _, op := range item.Ops {
					if op.K == "query" || rng.Intn(4) != 0 {
						continue
					}
					func() {
						e := finishedEvent{K: op.K}
						defer other(&e)
						e.R = mutate(index, op)
						out.add(e)
					}()
				}
			}
		}()
	}
	wg.Wait()
	for q, query := range item.Queries {
		out.ask(index, q, query, -1, false)
	}
}

func init() {
	handle("finished", func(item finishedItem) (any, error) {
		out := &finishedOut{Events: []finishedEvent{}, Answers: []string{}, n: make(map[string]int)}
		dir := scratch()
		defer cleanup(dir)
		cache := ""
		if item.Engine == "disk" {
			cache = filepath.Join(dir, "cache")
			if err := os.Mkdir(cache, 0o777); err != nil {
				return nil, err
			}
		}
		var index igraph.Index
		if err := index.Reset(sparkl.NewEngine(cache)); err != nil {
			return nil, err
		}
		item.run(&index, out)
		if err := index.Close(); err != nil {
			out.Err = err.Error()
		}
		return out, nil
	})
}
