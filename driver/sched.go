package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/tkw1536/pkglib/traversal"
)

// schedEvent is an event of spec/ExtractTrace.tla
type schedEvent struct {
	E   string `json:"e"` // open, call, ret, fin, other, done, misuse
	B   int    `json:"b"`
	G   string `json:"g"`
	W   string `json:"w"`
	How string `json:"how"`
}

// schedOp is an operation waiting to be let through
type schedOp struct {
	g       string
	b, i    int
	release chan struct{}
}

var errInjected = errors.New("injected failure")

// injected are failures as the system and the libraries report them
var injected = []error{
	errInjected,
	io.ErrUnexpectedEOF,
	&os.PathError{Op: "read", Path: "file", Err: syscall.EIO},
	&os.PathError{Op: "write", Path: "file", Err: syscall.ENOSPC},
	fmt.Errorf("injected: %w", os.ErrClosed),
	context.Canceled,
	leveldb.ErrClosed,
	leveldb.ErrReadOnly,
	io.ErrShortWrite,
	io.ErrClosedPipe,
}

// failure returns the failure for the n-th operation
func failure(n int) error { return injected[n%len(injected)] }

type schedItem struct {
	Doc    []Stmt         `json:"doc"`
	PB     []PB           `json:"pb"`
	Store  string         `json:"store"`
	Names  map[string]int `json:"names"`  // bundles to their number
	Groups map[string]int `json:"groups"` // fields to their number
	Policy string         `json:"policy"` // order, burst, starve, free
	Order  [][3]any       `json:"order"`  // group, bundle, index
	Starve string         `json:"starve"` // prefix of "group/bundle/"
	Fail   int            `json:"fail"`   // operation to fail, -1 for none
	Hang   int            `json:"hang"`   // milliseconds without progress that count as hanging
}

type schedOut struct {
	Events  []schedEvent            `json:"events"`
	Err     string                  `json:"err"`
	Hang    bool                    `json:"hang"`
	Ops     int                     `json:"ops"`
	Late    int                     `json:"late"`
	Bundles map[string][]entityJSON `json:"bundles"`
}

type sched struct {
	item     schedItem
	inner    storages.BundleEngine
	rank     map[string]int
	l        sync.Mutex
	pending  []*schedOp
	running  int
	arrivals int
	activity time.Time
	count    map[string]int // calls per group
	seen     map[string]int // calls per write
	executed int
	done     bool
	returned bool
	events   []schedEvent
	late     int
	doneOp   map[string]bool
}

func opKey(g string, b, i int) string { return fmt.Sprintf("%s/%d/%d", g, b, i) }

// op runs an operation through the gate
func (s *sched) op(g string, b int, call, ret func(how string) *schedEvent, f func() error) error {
	s.l.Lock()
	n := s.count[fmt.Sprint(g, "/", b)]
	n++
	s.count[fmt.Sprint(g, "/", b)] = n
	op := &schedOp{g: g, b: b, i: n, release: make(chan struct{})}
	if ev := call(""); ev != nil {
		s.events = append(s.events, *ev)
	}
	if s.done {
		s.late++
	}
	s.arrivals++
	s.activity = time.Now()
	free := s.item.Policy == "free"
	if !free {
		s.pending = append(s.pending, op)
	} else {
		s.running++
	}
	s.l.Unlock()
	if !free {
		<-op.release
	}
	s.l.Lock()
	fail := s.executed == s.item.Fail
	s.executed++
	s.l.Unlock()
	var err error
	if fail {
		err = failure(n + s.item.Fail)
	} else {
		err = f()
	}
	s.l.Lock()
	defer s.l.Unlock()
	s.running--
	s.doneOp[opKey(op.g, op.b, op.i)] = true
	s.activity = time.Now()
	how := "ok"
	if errors.Is(err, storages.ErrNoEntity) {
		how = "skip"
	} else if err != nil {
		how = "fail"
	}
	if ev := ret(how); ev != nil {
		s.events = append(s.events, *ev)
	}
	return err
}

// markDone notes that extraction is over
func (s *sched) markDone(ok bool) {
	s.l.Lock()
	defer s.l.Unlock()
	if s.done {
		return
	}
	s.done = true
	how := "fail"
	if ok {
		how = "ok"
	}
	s.events = append(s.events, schedEvent{E: "done", How: how})
}

// schedule lets operations through until the run is over
func (s *sched) schedule(stop chan struct{}) (hang bool) {
	const poll = 30 * time.Microsecond
	hangAfter := time.Duration(s.item.Hang) * time.Millisecond
	last, lastChange := -1, time.Now()
	next := 0
	for {
		select {
		case <-stop:
			return false
		default:
		}
		s.l.Lock()
		if s.arrivals != last {
			last, lastChange = s.arrivals, time.Now()
		}
		if s.running > 0 || len(s.pending) == 0 {
			idle := time.Since(s.activity)
			s.l.Unlock()
			if idle > hangAfter {
				return true
			}
			time.Sleep(poll)
			continue
		}
		quiet := time.Since(lastChange)
		pick := -1
		switch s.item.Policy {
		case "order":
			for next < len(s.item.Order) && s.doneOp[s.orderKey(next)] {
				next++
			}
			best := 1 << 30
			for i, op := range s.pending {
				r, ok := s.rank[opKey(op.g, op.b, op.i)]
				if !ok {
					r = 1<<29 + i
				}
				if op.g == "get" || strings.HasPrefix(op.g, "rc") {
					r = -1 // not part of the order
				}
				if r < best {
					best, pick = r, i
				}
			}
			wait := 100 * time.Microsecond
			if best >= 0 && best != next { // the operation that should come next isn't there yet
				wait = time.Millisecond
			}
			if quiet < wait {
				pick = -1
			}
		case "starve":
			for i, op := range s.pending {
				if !strings.HasPrefix(fmt.Sprintf("%s/%d/", op.g, op.b), s.item.Starve) {
					pick = i
					break
				}
			}
			if quiet < 100*time.Microsecond {
				pick = -1
			} else if pick < 0 && quiet > 3*time.Millisecond {
				pick = len(s.pending) - 1
			}
		case "burst":
			if quiet > 200*time.Microsecond {
				for _, op := range s.pending {
					s.running++
					close(op.release)
				}
				s.pending = nil
			}
		}
		if pick >= 0 {
			op := s.pending[pick]
			s.pending = append(s.pending[:pick:pick], s.pending[pick+1:]...)
			s.running++
			lastChange = time.Now()
			close(op.release)
		}
		s.l.Unlock()
		time.Sleep(poll)
	}
}

func (s *sched) orderKey(i int) string {
	o := s.item.Order[i]
	return fmt.Sprintf("%v/%v/%v", o[0], o[1], o[2])
}

type schedStorage struct {
	s     *sched
	b     int
	inner storages.BundleStorage

	l      sync.Mutex
	closed bool
}

func (s *sched) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	b := s.item.Names[bundle.MachineName()]
	var inner storages.BundleStorage
	err := s.op("open", b, none, func(how string) *schedEvent { return &schedEvent{E: "open", B: b, How: how} }, func() (err error) {
		inner, err = s.inner.NewStorage(bundle)
		return
	})
	if err != nil {
		return nil, err
	}
	return &schedStorage{s: s, b: b, inner: inner}, nil
}

func none(string) *schedEvent { return nil }

func (st *schedStorage) isClosed() bool {
	st.l.Lock()
	defer st.l.Unlock()
	return st.closed
}

func (st *schedStorage) guard(f func() error) func() error {
	return func() error {
		if st.isClosed() {
			st.s.l.Lock()
			st.s.events = append(st.s.events, schedEvent{E: "misuse", B: st.b})
			st.s.l.Unlock()
			return errors.New("use after close")
		}
		return f()
	}
}

func (st *schedStorage) write(g, w string, f func() error) error {
	var id string
	return st.s.op(g, st.b, func(string) *schedEvent {
		k := fmt.Sprint(st.b, "/", g, "/", w)
		st.s.seen[k]++
		id = fmt.Sprintf("%s#%d", w, st.s.seen[k])
		return &schedEvent{E: "call", B: st.b, G: g, W: id}
	}, func(how string) *schedEvent {
		if how == "skip" {
			st.s.seen[fmt.Sprint(st.b, "/", g, "/", w)]-- // not stored
		}
		return &schedEvent{E: "ret", B: st.b, G: g, W: id, How: how}
	}, st.guard(f))
}

// other runs an operation that isn't a write
func (st *schedStorage) other(g string, f func() error) error {
	return st.s.op(g, st.b, none, func(how string) *schedEvent {
		if st.s.done && how == "ok" {
			return nil
		}
		return &schedEvent{E: "other", How: how}
	}, st.guard(f))
}

func joined(path []impl.Label) string { return strings.Join(labelsOf(path), "/") }

func (st *schedStorage) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	return st.write("e", S(uri)+"|"+joined(path), func() error { return st.inner.Add(uri, path, triples) })
}
func (st *schedStorage) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	return st.write(fmt.Sprintf("f%d", st.s.item.Groups[field]), S(uri)+"|"+joined(path)+"|"+string(lang)+"|"+string(value), func() error {
		return st.inner.AddFieldValue(uri, field, value, lang, path, triples)
	})
}
func (st *schedStorage) RegisterChildStorage(bundle string, storage storages.BundleStorage) error {
	return st.other(fmt.Sprintf("rc%d", st.s.item.Names[bundle]), func() error {
		// loads of a storage by its parent are of no interest
		if child, ok := storage.(*schedStorage); ok {
			storage = child.inner
		}
		return st.inner.RegisterChildStorage(bundle, storage)
	})
}
func (st *schedStorage) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	return st.write(fmt.Sprintf("c%d", st.s.item.Names[bundle]), S(parent)+"|"+S(child), func() error { return st.inner.AddChild(parent, bundle, child) })
}
func (st *schedStorage) Finalize() error {
	return st.s.op("fin", st.b, func(string) *schedEvent { return &schedEvent{E: "fin", B: st.b} }, func(how string) *schedEvent {
		return &schedEvent{E: "other", How: how}
	}, st.guard(st.inner.Finalize))
}

// The operations below belong to whoever uses the result, and are let through at once
func (st *schedStorage) Get(parentPathIndex int) traversal.Iterator[storages.LabelWithParent] {
	if parentPathIndex < 0 {
		st.s.markDone(true)
		return st.inner.Get(parentPathIndex)
	}
	if err := st.other("get", func() error { return nil }); err != nil {
		return traversal.Empty[storages.LabelWithParent](err)
	}
	return st.inner.Get(parentPathIndex)
}
func (st *schedStorage) Count() (int64, error) {
	st.s.markDone(true)
	return st.inner.Count()
}
func (st *schedStorage) Load(uri impl.Label) (wisski.Entity, error) {
	st.s.markDone(true)
	return st.inner.Load(uri)
}
func (st *schedStorage) Close() error {
	st.l.Lock()
	defer st.l.Unlock()
	if st.closed {
		return nil
	}
	st.closed = true
	return st.inner.Close()
}

func init() {
	handle("sched", func(item schedItem) (any, error) {
		var out schedOut
		dir := scratch()
		defer cleanup(dir)
		pb, err := makePB(item.PB)
		if err != nil {
			return nil, err
		}
		index, err := sparkl.MakeIndex(newMemSource(item.Doc), indexSpec{}.predicates(), sparkl.NewEngine(""), sparkl.IndexOptions{}, nil)
		if err != nil {
			return nil, err
		}
		cache := ""
		if item.Store == "disk" {
			cache = filepath.Join(dir, "c")
			os.Mkdir(cache, 0o777)
		}
		s := &sched{item: item, inner: storages.NewBundleEngine(cache), rank: map[string]int{}, activity: time.Now(),
			count: map[string]int{}, seen: map[string]int{}, doneOp: map[string]bool{}}
		if item.Hang == 0 {
			s.item.Hang = 10000
		}
		for i := range item.Order {
			s.rank[s.orderKey(i)] = i
		}
		type result struct {
			data map[string][]wisski.Entity
			err  error
		}
		res := make(chan result, 1)
		stop := make(chan struct{})
		go func() {
			data, err := sparkl.LoadPathbuilder(&pb, index, s, nil)
			s.markDone(err == nil)
			res <- result{data, err}
			if item.Policy != "free" {
				// let everything that is still going on come through
				for end := time.Now().Add(2 * time.Millisecond); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
					s.l.Lock()
					if len(s.pending) > 0 || s.running > 0 {
						end = time.Now().Add(2 * time.Millisecond)
					}
					s.l.Unlock()
				}
			} else {
				time.Sleep(time.Millisecond)
			}
			close(stop)
		}()
		if item.Policy == "free" {
			select {
			case <-stop:
			case <-time.After(time.Duration(s.item.Hang) * time.Millisecond):
				out.Hang = true
			}
		} else {
			out.Hang = s.schedule(stop)
		}
		if !out.Hang {
			r := <-res
			if r.err != nil {
				out.Err = r.err.Error()
			} else {
				out.Bundles = bundlesOf(r.data)
			}
		}
		s.l.Lock()
		defer s.l.Unlock()
		out.Events, out.Ops, out.Late = s.events, s.executed, s.late
		return out, nil
	})
}
