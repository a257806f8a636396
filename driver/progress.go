package main

import (
	"errors"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
)

type obsJSON struct {
	Done  bool   `json:"done"`
	Stage string `json:"stage"`
	Cur   int    `json:"cur"`
	Total int    `json:"total"`
}

type stageJSON struct {
	Stage string `json:"stage"`
	Cur   int    `json:"cur"`
	Total int    `json:"total"`
	Start int64  `json:"start"` // microseconds since the beginning
	End   int64  `json:"end"`
}

func obsOf(p stats.Progress) obsJSON {
	return obsJSON{Done: p.Done, Stage: string(p.Stage), Cur: p.Current, Total: p.Total}
}

func stagesOf(all []stats.StageStats, base time.Time) []stageJSON {
	out := make([]stageJSON, len(all))
	at := func(t time.Time) int64 {
		if t.IsZero() {
			return -1
		}
		return t.Sub(base).Microseconds()
	}
	for i, s := range all {
		out[i] = stageJSON{Stage: string(s.Stage), Cur: s.Current, Total: s.Total, Start: at(s.Start.Time), End: at(s.End.Time)}
	}
	return out
}

// watch watches progress while something happens
type watch struct {
	base      time.Time
	m         sync.Mutex
	observers [][]obsJSON
	snaps     [][]stageJSON
	stop      atomic.Bool
	wg        sync.WaitGroup
}

func (w *watch) note(i int, o obsJSON) {
	s := w.observers[i]
	if len(s) == 0 || s[len(s)-1] != o {
		w.observers[i] = append(s, o)
	}
}

func watching(st *stats.Stats, pollers int) *watch {
	w := &watch{base: time.Now(), observers: make([][]obsJSON, pollers+1), snaps: [][]stageJSON{}}
	for i := range w.observers {
		w.observers[i] = []obsJSON{}
	}
	st.OnUpdate = func(st *stats.Stats) {
		w.m.Lock()
		defer w.m.Unlock()
		w.note(0, obsOf(st.Progress()))
	}
	for i := 1; i <= pollers; i++ {
		w.wg.Add(1)
		go func(i int) {
			defer w.wg.Done()
			n := -1
			for !w.stop.Load() {
				w.note(i, obsOf(st.Progress()))
				if i == 1 {
					if all := st.All(); len(all) != n {
						n = len(all)
						w.m.Lock()
						w.snaps = append(w.snaps, stagesOf(all, w.base))
						w.m.Unlock()
					}
				}
				runtime.Gosched()
			}
		}(i)
	}
	return w
}

func (w *watch) finish() {
	w.stop.Store(true)
	w.wg.Wait()
}

type progressItem struct {
	siteSpec
	Pollers int    `json:"pollers"`
	Fault   string `json:"fault"`
	Inverse bool   `json:"inverse"` // look for inverses
}

type progressRun struct {
	What      string        `json:"what"`
	Err       string        `json:"err"`
	Observers [][]obsJSON   `json:"observers"`
	Snaps     [][]stageJSON `json:"snaps"`
	All       []stageJSON   `json:"all"`
	Later     []stageJSON   `json:"later"`
	End       obsJSON       `json:"end"`
	Stats     igraph.Stats  `json:"stats"`
}

func init() {
	handle("progress", func(item progressItem) (any, error) {
		dir := scratch()
		defer cleanup(dir)
		pbf, nqf, err := item.files(dir)
		if err != nil {
			return nil, err
		}
		switch item.Fault {
		case "pb":
			err = os.WriteFile(pbf, []byte("<html>"), 0o666)
		case "nopb":
			err = os.Remove(pbf)
		case "nonq":
			err = os.Remove(nqf)
		}
		if err != nil {
			return nil, err
		}
		runs := []progressRun{}
		do := func(what string, f func(st *stats.Stats) error) error {
			st := stats.NewStats(io.Discard)
			w := watching(st, item.Pollers)
			err := f(st)
			w.finish()
			run := progressRun{What: what, Observers: w.observers, Snaps: w.snaps, All: stagesOf(st.All(), w.base), End: obsOf(st.Progress()), Stats: st.IndexStats()}
			if err != nil {
				run.Err = err.Error()
			}
			if what == "serve" {
				// nothing changes afterwards
				st.SetCT(5, 6)
				st.Start(stats.StageImportIndex)
				st.DoStage(stats.StageExportIndex, func() error { return errors.New("failed") })
				st.End()
				st.StoreIndexStats(igraph.Stats{DirectTriples: 12345})
				st.Close()
				if st.IndexStats() != run.Stats {
					run.Stats.DirectTriples = 1 << 30
				}
				run.End = obsOf(st.Progress())
			}
			run.Later = stagesOf(st.All(), w.base)
			runs = append(runs, run)
			return err
		}
		cache := func(name string) string {
			if !item.Cache {
				return ""
			}
			p := filepath.Join(dir, name)
			if err := os.Mkdir(p, 0o777); err != nil {
				panic(err)
			}
			return p
		}
		flags := item.flags()
		if !item.Inverse {
			flags.Predicates.InverseOf = nil
		}
		var g glass.Glass
		if do("create", func(st *stats.Stats) (err error) {
			g, err = glass.Create(pbf, nqf, cache("cache"), flags, st)
			return err
		}) != nil {
			return runs, nil
		}
		file := filepath.Join(dir, "export")
		target := file
		if item.Fault == "export" {
			target = filepath.Join(dir, "no", "where")
		}
		if do("export", func(st *stats.Stats) error { return glass.Export(target, g, st) }) != nil {
			return runs, nil
		}
		if item.Fault == "import" {
			data, err := os.ReadFile(file)
			if err != nil {
				return nil, err
			}
			if err := os.WriteFile(file, data[:len(data)/2], 0o666); err != nil {
				return nil, err
			}
		}
		if do("import", func(st *stats.Stats) error { _, err := glass.Import(file, st); return err }) != nil {
			return runs, nil
		}
		do("serve", func(st *stats.Stats) error {
			v := item.viewer()
			old := st.OnUpdate
			v.Stats = st
			st.OnUpdate = old
			g, err := glass.Create(pbf, nqf, cache("cache2"), flags, st)
			if err != nil {
				return err
			}
			return st.DoStage(stats.StageHandler, func() error {
				v.Prepare(g.Cache, &g.Pathbuilder)
				return nil
			})
		})
		// the same without a pathbuilder to skip anything for
		do("index", func(st *stats.Stats) error {
			index, err := sparkl.MakeIndex(newMemSource(item.Doc), flags.Predicates, sparkl.NewEngine(""), sparkl.IndexOptions{CompactInterval: 3}, st)
			if err != nil {
				return err
			}
			return index.Close()
		})
		return runs, nil
	})
}

// ------------------------------------------------------------------ the interface itself

type statsOp struct {
	Op    string    `json:"op"` // start set end store close do
	Stage string    `json:"stage"`
	Cur   int       `json:"cur"`
	Total int       `json:"total"`
	N     int       `json:"n"`
	Fail  bool      `json:"fail"`
	Ops   []statsOp `json:"ops"`
}

type statsItem struct {
	Ops     []statsOp `json:"ops"`
	Readers int       `json:"readers"`
	Quiet   bool      `json:"quiet"` // without a log
	Seed    int64     `json:"seed"`
	// closing while others are busy
	Workers int `json:"workers"`
}

type seenJSON struct {
	Lo   int         `json:"lo"`
	Hi   int         `json:"hi"`
	Kind string      `json:"kind"` // progress all current store done
	P    obsJSON     `json:"p"`
	All  []stageJSON `json:"all"`
	N    int         `json:"n"`
}

type slowWriter struct{}

func (slowWriter) Write(b []byte) (int, error) {
	time.Sleep(20 * time.Microsecond)
	return len(b), nil
}

func (item statsItem) look(st *stats.Stats, kind int) (s seenJSON) {
	s.All = []stageJSON{}
	switch kind {
	case 0:
		s.Kind, s.P = "progress", obsOf(st.Progress())
	case 1:
		s.Kind = "all"
		for _, x := range st.All() {
			s.All = append(s.All, stageJSON{Stage: string(x.Stage), Cur: x.Current, Total: x.Total})
		}
	case 2:
		c := st.Current()
		s.Kind, s.P = "current", obsJSON{Stage: string(c.Stage), Cur: c.Current, Total: c.Total}
	case 3:
		s.Kind, s.N = "store", int(st.IndexStats().DirectTriples)
	case 4:
		s.Kind, s.P = "done", obsJSON{Done: st.Done()}
	}
	return
}

func (item statsItem) sequence(st *stats.Stats) [][]seenJSON {
	rng := rand.New(rand.NewSource(item.Seed))
	var begun, ended atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	seen := make([][]seenJSON, item.Readers)
	for i := range seen {
		seen[i] = []seenJSON{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(item.Seed + int64(i) + 1))
			for !stop.Load() {
				lo := int(ended.Load())
				s := item.look(st, rng.Intn(5))
				s.Lo, s.Hi = lo, int(begun.Load())
				if n := len(seen[i]); n == 0 || (!reflect.DeepEqual(seen[i][n-1], s) && n < 250) {
					seen[i] = append(seen[i], s)
				}
				if rng.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
		}(i)
	}
	var run func(ops []statsOp)
	run = func(ops []statsOp) {
		for _, o := range ops {
			if d := rng.Intn(6); d > 0 {
				time.Sleep(time.Duration(d*10) * time.Microsecond)
			}
			begun.Add(1)
			switch o.Op {
			case "start":
				st.Start(stats.Stage(o.Stage))
			case "set":
				st.SetCT(o.Cur, o.Total)
			case "end":
				st.End()
			case "store":
				st.StoreIndexStats(igraph.Stats{DirectTriples: uint64(o.N)})
			case "close":
				st.Close()
			case "do":
				err := st.DoStage(stats.Stage(o.Stage), func() error {
					ended.Add(1)
					run(o.Ops)
					begun.Add(1)
					if o.Fail {
						return errors.New("failed")
					}
					return nil
				})
				if (err != nil) != o.Fail {
					panic("DoStage changes errors")
				}
			}
			ended.Add(1)
		}
	}
	run(item.Ops)
	stop.Store(true)
	wg.Wait()
	// and at the end
	last := []seenJSON{}
	for k := 0; k < 5; k++ {
		s := item.look(st, k)
		s.Lo, s.Hi = int(ended.Load()), int(begun.Load())
		last = append(last, s)
	}
	return append(seen, last)
}

type frozenJSON struct {
	P     obsJSON     `json:"p"`
	All   []stageJSON `json:"all"`
	Store int         `json:"store"`
}

// closing closes while workers make changes all the time
func (item statsItem) closing(st *stats.Stats) []frozenJSON {
	rng := rand.New(rand.NewSource(item.Seed))
	base := time.Now()
	var stop atomic.Bool
	var wg sync.WaitGroup
	st.Start("first")
	for i := 0; i < item.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(item.Seed + int64(i) + 1))
			for n := 0; !stop.Load(); n++ {
				switch rng.Intn(8) {
				case 0:
					st.Start(stats.Stage([]string{"one", "two"}[rng.Intn(2)]))
				case 1:
					st.End()
				case 2:
					st.StoreIndexStats(igraph.Stats{DirectTriples: uint64(n*item.Workers + i)})
				default:
					st.SetCT(n*item.Workers+i, 0)
				}
				runtime.Gosched()
			}
		}(i)
	}
	time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	st.Close()
	out := []frozenJSON{}
	for k := 0; k < 4; k++ {
		out = append(out, frozenJSON{P: obsOf(st.Progress()), All: stagesOf(st.All(), base), Store: int(st.IndexStats().DirectTriples)})
		time.Sleep(time.Millisecond)
	}
	stop.Store(true)
	wg.Wait()
	return append(out, frozenJSON{P: obsOf(st.Progress()), All: stagesOf(st.All(), base), Store: int(st.IndexStats().DirectTriples)})
}

func init() {
	handle("statsapi", func(item statsItem) (any, error) {
		var w io.Writer = slowWriter{}
		if item.Quiet {
			w = nil
		}
		st := stats.NewStats(w)
		if item.Workers > 0 {
			return item.closing(st), nil
		}
		return item.sequence(st), nil
	})
}
