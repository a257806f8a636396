package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/tkw1536/pkglib/traversal"
)

// lifeEvent is an event of spec/LifecycleTrace.tla
type lifeEvent struct {
	E   string `json:"e"`   // open, use, used, close, end, return
	R   string `json:"r"`   // resource
	S   string `json:"s"`   // scope: index, source, bundles, exporter
	Op  string `json:"op"`  // operation
	How string `json:"how"` // ok or fail
	N   int    `json:"n"`   // number of the operation
}

// life records what happens to resources, and lets an operation fail
type life struct {
	l      sync.Mutex
	events []lifeEvent
	ops    int
	fail   map[int]bool
	late   bool // fail at the end of the operation rather than instead of it
	linger time.Duration
	always bool // linger everywhere
	failed bool
	names  map[string]int
}

func (lf *life) name(kind string) string {
	lf.l.Lock()
	defer lf.l.Unlock()
	lf.names[kind]++
	return fmt.Sprintf("%s%d", kind, lf.names[kind])
}

func (lf *life) add(e lifeEvent) {
	lf.l.Lock()
	defer lf.l.Unlock()
	lf.events = append(lf.events, e)
}

// do performs an operation on a resource that may fail.
// before and after are the events it causes, f returns nothing but what the operation returns.
func (lf *life) do(kind, r, s, op string, f func() error) error {
	lf.l.Lock()
	n := lf.ops
	lf.ops++
	fail := lf.fail[n]
	switch kind {
	case "use":
		lf.events = append(lf.events, lifeEvent{E: "use", R: r, S: s, Op: op, How: "ok", N: n})
	case "close":
		lf.events = append(lf.events, lifeEvent{E: "close", R: r, S: s, Op: op, How: "ok", N: n})
	}
	slow := lf.linger > 0 && (lf.always || len(lf.fail) > 0)
	for f := range lf.fail {
		slow = slow && n >= f-8 && n < f+60
	}
	lf.l.Unlock()
	if slow && !fail && (op == "fetch" || op == "get" || op == "iterate" || op == "load") {
		time.Sleep(lf.linger)
	}
	var err error
	if !fail || (lf.late && kind != "open") || kind == "close" {
		err = f()
	}
	if fail {
		err = failure(n)
	}
	lf.l.Lock()
	defer lf.l.Unlock()
	if fail {
		lf.failed = true
	}
	how := "ok"
	if fail || (err != nil && err != io.EOF && !errors.Is(err, storages.ErrNoEntity)) {
		how = "fail"
	}
	switch kind {
	case "open":
		lf.events = append(lf.events, lifeEvent{E: "open", R: r, S: s, Op: op, How: how, N: n})
	default:
		lf.events = append(lf.events, lifeEvent{E: "used", R: r, S: s, Op: op, How: how, N: n})
	}
	return err
}

type lifeHash[K comparable, V any] struct {
	lf    *life
	r     string
	inner imap.HashMap[K, V]
}

func openHash[K comparable, V any](lf *life, kind string, open func() (imap.HashMap[K, V], error)) (imap.HashMap[K, V], error) {
	r := lf.name(kind)
	var inner imap.HashMap[K, V]
	if err := lf.do("open", r, "index", "open", func() (err error) { inner, err = open(); return }); err != nil {
		return nil, err
	}
	return &lifeHash[K, V]{lf: lf, r: r, inner: inner}, nil
}

func (h *lifeHash[K, V]) use(op string, f func() error) error { return h.lf.do("use", h.r, "index", op, f) }
func (h *lifeHash[K, V]) Close() error {
	return h.lf.do("close", h.r, "index", "close", h.inner.Close)
}
func (h *lifeHash[K, V]) Compact() error  { return h.use("compact", h.inner.Compact) }
func (h *lifeHash[K, V]) Finalize() error { return h.use("finalize", h.inner.Finalize) }
func (h *lifeHash[K, V]) Set(k K, v V) error {
	return h.use("set", func() error { return h.inner.Set(k, v) })
}
func (h *lifeHash[K, V]) Get(k K) (v V, ok bool, err error) {
	err = h.use("get", func() (err error) { v, ok, err = h.inner.Get(k); return })
	if err != nil {
		var zero V
		return zero, false, err
	}
	return
}
func (h *lifeHash[K, V]) GetZero(k K) (v V, err error) {
	err = h.use("get", func() (err error) { v, err = h.inner.GetZero(k); return })
	if err != nil {
		var zero V
		return zero, err
	}
	return
}
func (h *lifeHash[K, V]) Has(k K) (ok bool, err error) {
	err = h.use("get", func() (err error) { ok, err = h.inner.Has(k); return })
	return ok && err == nil, err
}
func (h *lifeHash[K, V]) Delete(k K) error {
	return h.use("delete", func() error { return h.inner.Delete(k) })
}
func (h *lifeHash[K, V]) Iterate(f func(K, V) error) error {
	return h.use("iterate", func() error { return h.inner.Iterate(f) })
}
func (h *lifeHash[K, V]) Count() (n uint64, err error) {
	err = h.use("count", func() (err error) { n, err = h.inner.Count(); return })
	return
}

type lifeThree struct {
	lf    *life
	r     string
	inner igraph.ThreeStorage
}

func openThree(lf *life, kind string, open func() (igraph.ThreeStorage, error)) (igraph.ThreeStorage, error) {
	r := lf.name(kind)
	var inner igraph.ThreeStorage
	if err := lf.do("open", r, "index", "open", func() (err error) { inner, err = open(); return }); err != nil {
		return nil, err
	}
	return &lifeThree{lf: lf, r: r, inner: inner}, nil
}
func (h *lifeThree) use(op string, f func() error) error { return h.lf.do("use", h.r, "index", op, f) }
func (h *lifeThree) Close() error                        { return h.lf.do("close", h.r, "index", "close", h.inner.Close) }
func (h *lifeThree) Compact() error                      { return h.use("compact", h.inner.Compact) }
func (h *lifeThree) Finalize() error                     { return h.use("finalize", h.inner.Finalize) }
func (h *lifeThree) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl.ID) (impl.ID, error)) (conflicted bool, err error) {
	err = h.use("set", func() (err error) { conflicted, err = h.inner.Add(a, b, c, l, conflict); return })
	return
}
func (h *lifeThree) Count() (n int64, err error) {
	err = h.use("count", func() (err error) { n, err = h.inner.Count(); return })
	return
}
func (h *lifeThree) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error) error {
	return h.use("fetch", func() error { return h.inner.Fetch(a, b, f) })
}
func (h *lifeThree) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error) {
	err = h.use("get", func() (err error) { id, ok, err = h.inner.Has(a, b, c); return })
	if err != nil {
		return id, false, err
	}
	return
}

type lifeEngine struct {
	lf *life
	igraph.Engine
}

func (e lifeEngine) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return openHash(e.lf, "forward", e.Engine.Forward)
}
func (e lifeEngine) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return openHash(e.lf, "reverse", e.Engine.Reverse)
}
func (e lifeEngine) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return openHash(e.lf, "data", e.Engine.Data)
}
func (e lifeEngine) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return openHash(e.lf, "language", e.Engine.Language)
}
func (e lifeEngine) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return openHash(e.lf, "triples", e.Engine.Triples)
}
func (e lifeEngine) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return openHash(e.lf, "inverses", e.Engine.Inverses)
}
func (e lifeEngine) PSOIndex() (igraph.ThreeStorage, error) {
	return openThree(e.lf, "pso", e.Engine.PSOIndex)
}
func (e lifeEngine) POSIndex() (igraph.ThreeStorage, error) {
	return openThree(e.lf, "pos", e.Engine.POSIndex)
}

// lifeSource is the statement source
type lifeSource struct {
	lf    *life
	inner sparkl.Source
}

func (s *lifeSource) Open() error { return s.lf.do("open", "source", "source", "open", s.inner.Open) }
func (s *lifeSource) Close() error {
	return s.lf.do("close", "source", "source", "close", s.inner.Close)
}
func (s *lifeSource) Next() (t sparkl.Token) {
	err := s.lf.do("use", "source", "source", "next", func() error {
		t = s.inner.Next()
		return t.Err
	})
	if err != nil {
		return sparkl.Token{Err: err}
	}
	return t
}

// lifeBundles are storages for bundles
type lifeBundles struct {
	lf *life
	storages.BundleEngine
}

func (e lifeBundles) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	r := e.lf.name("bundle")
	var inner storages.BundleStorage
	if err := e.lf.do("open", r, "bundles", "open", func() (err error) { inner, err = e.BundleEngine.NewStorage(bundle); return }); err != nil {
		return nil, err
	}
	return &lifeBundle{lf: e.lf, r: r, inner: inner}, nil
}

type lifeBundle struct {
	lf        *life
	r         string
	inner     storages.BundleStorage
	iterators sync.WaitGroup // the iterators below
	l         sync.Mutex
	cancels   []func() error
}

func (b *lifeBundle) use(op string, f func() error) error {
	return b.lf.do("use", b.r, "bundles", op, f)
}
func (b *lifeBundle) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	return b.use("add", func() error { return b.inner.Add(uri, path, triples) })
}
func (b *lifeBundle) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	return b.use("add", func() error { return b.inner.AddFieldValue(uri, field, value, lang, path, triples) })
}
func (b *lifeBundle) RegisterChildStorage(bundle string, storage storages.BundleStorage) error {
	return b.use("register", func() error { return b.inner.RegisterChildStorage(bundle, storage) })
}
func (b *lifeBundle) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	return b.use("add", func() error { return b.inner.AddChild(parent, bundle, child) })
}
func (b *lifeBundle) Finalize() error { return b.use("finalize", b.inner.Finalize) }
func (b *lifeBundle) Get(parentPathIndex int) traversal.Iterator[storages.LabelWithParent] {
	// an iterator may fail at any of its elements
	it := b.inner.Get(parentPathIndex)
	b.iterators.Add(1)
	out := traversal.New(func(sender traversal.Generator[storages.LabelWithParent]) {
		defer b.iterators.Done()
		defer sender.Return()
		defer it.Close()
		for {
			var more bool
			err := b.use("iterate", func() error { more = it.Next(); return it.Err() })
			if !sender.YieldError(err) || err != nil {
				return
			}
			if !more || !sender.Yield(it.Datum()) {
				return
			}
		}
	})
	b.l.Lock()
	defer b.l.Unlock()
	b.cancels = append(b.cancels, out.Close)
	return out
}
func (b *lifeBundle) Count() (n int64, err error) {
	err = b.use("count", func() (err error) { n, err = b.inner.Count(); return })
	return
}
func (b *lifeBundle) Load(uri impl.Label) (e wisski.Entity, err error) {
	err = b.use("load", func() (err error) { e, err = b.inner.Load(uri); return })
	if err != nil {
		return wisski.Entity{}, err
	}
	return
}
func (b *lifeBundle) Close() error {
	// the iterators made above belong to the instrumentation; those of the code are its own business
	b.l.Lock()
	for _, cancel := range b.cancels {
		cancel()
	}
	b.l.Unlock()
	b.iterators.Wait()
	return b.lf.do("close", b.r, "bundles", "close", b.inner.Close)
}

// lifeExporter is an exporter
type lifeExporter struct {
	lf    *life
	inner exporter.Exporter
}

func (e lifeExporter) Begin(bundle *pathbuilder.Bundle, count int64) error {
	return e.lf.do("use", "exporter", "exporter", "begin", func() error { return e.inner.Begin(bundle, count) })
}
func (e lifeExporter) Add(bundle *pathbuilder.Bundle, entity *wisski.Entity) error {
	return e.lf.do("use", "exporter", "exporter", "export", func() error { return e.inner.Add(bundle, entity) })
}
func (e lifeExporter) End(bundle *pathbuilder.Bundle) error {
	return e.lf.do("use", "exporter", "exporter", "finish", func() error { return e.inner.End(bundle) })
}
func (e lifeExporter) Close() error {
	// closing an exporter is what completes its output
	return e.lf.do("use", "exporter", "exporter", "finish", e.inner.Close)
}

// cutReader fails at some byte of one of the times it is read
type cutReader struct {
	inner          *strings.Reader
	cut, pass, pos int
	passes         int
	err            error
}

func (r *cutReader) Read(p []byte) (n int, err error) {
	if r.cut > 0 && r.passes+1 == r.pass {
		if r.pos >= r.cut {
			return 0, r.err
		}
		p = p[:min(len(p), r.cut-r.pos)]
	}
	n, err = r.inner.Read(p)
	r.pos += n
	return
}

func (r *cutReader) Seek(offset int64, whence int) (int64, error) {
	if offset != 0 || whence != io.SeekStart {
		return 0, errors.New("unexpected seek")
	}
	r.passes++
	r.pos = 0
	return r.inner.Seek(0, io.SeekStart)
}

type lifeItem struct {
	Doc     []Stmt `json:"doc"`
	PB      []PB   `json:"pb"`
	Engine  string `json:"engine"`
	Store   string `json:"store"`
	Masked  bool   `json:"masked"`
	Compact int    `json:"compact"`
	Fail    []int  `json:"fail"`
	Late    bool   `json:"late"`
	Linger  int    `json:"linger"`  // microseconds reads take around a failure
	Aliases bool   `json:"aliases"` // ask for the aliases as well
	Text    bool   `json:"text"`    // read the statements from a text
	Cut     int    `json:"cut"`     // ... of which only the first cut bytes can be read (if > 0)
	Pass    int    `json:"pass"`    // ... when it is read for this time
	Cause   int    `json:"cause"`   // ... because of this failure
}

type lifeOut struct {
	Events  []lifeEvent             `json:"events"`
	Ops     int                     `json:"ops"`
	Hit     bool                    `json:"hit"`
	Hang    bool                    `json:"hang"`
	Err     string                  `json:"err"`
	Bundles map[string][]entityJSON `json:"bundles"`
	Aliases map[string]string       `json:"aliases"`
	Leaks   []string                `json:"leaks"`
}

func (item lifeItem) run(out *lifeOut, dir string, lf *life) error {
	pb, err := makePB(item.PB)
	if err != nil {
		return fmt.Errorf("pathbuilder: %w", err)
	}
	icache, bcache := "", ""
	if item.Engine == "disk" {
		icache = filepath.Join(dir, "index")
		os.Mkdir(icache, 0o777)
	}
	if item.Store == "disk" {
		bcache = filepath.Join(dir, "store")
		os.Mkdir(bcache, 0o777)
	}
	opts := sparkl.IndexOptions{CompactInterval: item.Compact}
	if item.Masked {
		opts.Mask = &pb
	}
	var source sparkl.Source = newMemSource(item.Doc)
	if item.Text {
		source = &sparkl.QuadSource{Reader: &cutReader{inner: strings.NewReader(nquads(item.Doc)), cut: item.Cut, pass: item.Pass, err: failure(item.Cause)}}
	}
	index, err := sparkl.MakeIndex(&lifeSource{lf, source}, indexSpec{}.predicates(), lifeEngine{lf, sparkl.NewEngine(icache)}, opts, nil)
	lf.add(lifeEvent{E: "end", S: "source"})
	if err != nil {
		lf.add(lifeEvent{E: "end", S: "index"})
		return err
	}
	finish := func() error {
		err := index.Close()
		lf.add(lifeEvent{E: "end", S: "index"})
		return err
	}
	mp := exporter.Map{Data: map[string][]wisski.Entity{}}
	err = sparkl.Export(&pb, index, lifeBundles{lf, storages.NewBundleEngine(bcache)}, lifeExporter{lf, &mp}, nil)
	lf.add(lifeEvent{E: "end", S: "bundles"})
	if err != nil {
		finish()
		return err
	}
	if item.Aliases {
		if out.Aliases, err = aliasesOf(index); err != nil {
			finish()
			return err
		}
	}
	out.Bundles = bundlesOf(mp.Data)
	return finish()
}

func init() {
	handle("life", func(item lifeItem) (any, error) {
		var out lifeOut
		dir := scratch()
		defer cleanup(dir)
		lf := &life{fail: map[int]bool{}, late: item.Late, linger: time.Duration(item.Linger) * time.Microsecond, names: map[string]int{}}
		for _, f := range item.Fail {
			lf.fail[f] = true
		}
		done := make(chan error, 1)
		go func() { done <- item.run(&out, dir, lf) }()
		select {
		case err := <-done:
			if err != nil {
				out.Err = err.Error()
				out.Bundles, out.Aliases = nil, nil
			}
			if item.Linger > 0 {
				time.Sleep(time.Duration(3*item.Linger) * time.Microsecond)
			}
		case <-time.After(10 * time.Second):
			out = lifeOut{Hang: true}
		}
		if item.Engine == "disk" || item.Store == "disk" {
			out.Leaks = openFiles(dir)
		}
		lf.l.Lock()
		defer lf.l.Unlock()
		out.Events, out.Ops, out.Hit = append([]lifeEvent{}, lf.events...), lf.ops, lf.failed
		return out, nil
	})
}

// openFiles lists the open files below a directory
func openFiles(dir string) (out []string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if p, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			out = append(out, strings.TrimPrefix(p, dir+"/"))
		}
	}
	return
}

// abandonItem reads a few elements of iterators, and then closes what they read from
type abandonItem struct {
	Doc    []Stmt   `json:"doc"`
	Disk   bool     `json:"disk"`
	Start  []string `json:"start"`  // predicate and object where the query starts
	Edges  []string `json:"edges"`  // predicates it then follows
	Take   []int    `json:"take"`   // number of elements to take of each query
	Close  []bool   `json:"close"`  // close each iterator after that
	Linger int      `json:"linger"` // microseconds each read takes
}

func (item abandonItem) lifeOf() *life {
	return &life{fail: map[int]bool{}, linger: time.Duration(item.Linger) * time.Microsecond, names: map[string]int{}}
}

func take[T any](it traversal.Iterator[T], n int) (taken int) {
	for taken < n && it.Next() {
		taken++
	}
	return
}

func (item abandonItem) index(lf *life, dir string) error {
	engine := sparkl.NewEngine("")
	if item.Disk {
		engine = sparkl.NewEngine(dir)
	}
	index, err := sparkl.MakeIndex(newMemSource(item.Doc), indexSpec{}.predicates(), lifeEngine{lf, engine}, sparkl.IndexOptions{}, nil)
	if err != nil {
		return err
	}
	lf.always = true
	var its []traversal.Iterator[igraph.Path]
	for range item.Take {
		set, err := index.PathsStarting(U(item.Start[0]), U(item.Start[1]))
		if err != nil {
			return err
		}
		for _, e := range item.Edges {
			if err := set.Connected(U(e)); err != nil {
				return err
			}
		}
		its = append(its, set.Paths())
	}
	for i, it := range its {
		take(it, item.Take[i])
		if item.Close[i] {
			it.Close()
		}
	}
	err = index.Close()
	lf.add(lifeEvent{E: "end", S: "index"})
	time.Sleep(5 * lf.linger)
	for _, it := range its {
		if take(it, 1) > 0 {
			lf.add(lifeEvent{E: "use", R: "forward1", S: "index", Op: "iterate"})
		}
	}
	return err
}

func (item abandonItem) store(lf *life, dir string) error {
	engine := storages.NewBundleEngine("")
	if item.Disk {
		engine = storages.NewBundleEngine(dir)
	}
	var bundle pathbuilder.Bundle
	storage, err := engine.NewStorage(&bundle)
	if err != nil {
		return err
	}
	lf.add(lifeEvent{E: "open", R: "bundle1", S: "bundles", Op: "open", How: "ok"})
	for _, st := range item.Doc {
		uri := U(st.S)
		if err := storage.Add(uri, []impl.Label{uri, U(st.P)}, nil); err != nil {
			return err
		}
	}
	if err := storage.Finalize(); err != nil {
		return err
	}
	var its []traversal.Iterator[storages.LabelWithParent]
	for i, n := range item.Take {
		it := storage.Get(i - 1)
		its = append(its, it)
		take(it, n)
		if item.Close[i] {
			it.Close()
		}
	}
	lf.add(lifeEvent{E: "close", R: "bundle1", S: "bundles", Op: "close", How: "ok"})
	err = storage.Close()
	lf.add(lifeEvent{E: "used", R: "bundle1", S: "bundles", Op: "close", How: "ok"})
	lf.add(lifeEvent{E: "end", S: "bundles"})
	for _, it := range its {
		if take(it, 1) > 0 {
			lf.add(lifeEvent{E: "use", R: "bundle1", S: "bundles", Op: "iterate"})
		}
	}
	return err
}

func init() {
	handle("abandon", func(item abandonItem) (any, error) {
		var outs []lifeOut
		for _, run := range []func(*life, string) error{item.index, item.store} {
			dir := scratch()
			lf := item.lifeOf()
			done := make(chan error, 1)
			go func() { done <- run(lf, dir) }()
			var out lifeOut
			select {
			case err := <-done:
				if err != nil {
					out.Err = err.Error()
				}
			case <-time.After(20 * time.Second):
				out.Hang = true
			}
			out.Leaks = openFiles(dir)
			lf.l.Lock()
			out.Events = append([]lifeEvent{}, lf.events...)
			lf.l.Unlock()
			outs = append(outs, out)
			cleanup(dir)
		}
		return outs, nil
	})
}
