package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

// view is everything that can be seen of a data set
type view map[string]string

// withoutNull replaces null by an empty list
func withoutNull(x any) any {
	switch x := x.(type) {
	case nil:
		return []any{}
	case []any:
		for i := range x {
			x[i] = withoutNull(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = withoutNull(x[k])
		}
	}
	return x
}

// viewOf looks at a data set, through the viewer as well
func viewOf(g *glass.Glass, labels []string, follow int) (v view, err error) {
	v = view{}
	xml, err := pbxml.Marshal(g.Pathbuilder)
	if err != nil {
		return nil, err
	}
	v["xml"] = string(xml)
	flags := g.Flags
	flags.Stats = nil
	v["flags"] = fmt.Sprintf("%#v", flags)
	v["bundles"] = fmt.Sprintf("%q", g.Cache.BundleNames())
	dump, err := json.Marshal(glassBundles(g))
	if err != nil {
		return nil, err
	}
	v["entities"] = string(dump)
	for _, l := range labels {
		u := U(l)
		b, ok := g.Cache.Bundle(u)
		aliases := []string{}
		for _, a := range g.Cache.Aliases(u) {
			aliases = append(aliases, string(a))
		}
		sort.Strings(aliases)
		v["label "+l] = fmt.Sprintf("%q %q %v %q", g.Cache.Canonical(u), b, ok, aliases)
		for _, b := range g.Cache.BundleNames() {
			if e, ok := g.Cache.Entity(u, b); ok {
				v["entity "+b+" "+l] = string(e.URI)
			}
		}
	}
	if follow > 0 {
		h := viewer.NewViewer(nil)
		h.RenderFlags = g.Flags
		h.Prepare(g.Cache, &g.Pathbuilder)
		start := []string{"/", "/pathbuilder", "/api/v1", "/tipsy"}
		for _, b := range g.Cache.BundleNames() {
			start = append(start, "/api/v1/bundle/"+b)
			for i, e := range g.Cache.Entities(b) {
				if i > 3 {
					break
				}
				start = append(start, "/api/v1/entity/"+b+"?uri="+url.QueryEscape(string(e.URI)))
			}
		}
		for _, a := range crawl(h, start, follow, true) {
			if a.URL == "/perf" || a.URL == "/about" {
				continue
			}
			a.Page = nil
			if a.CType == "application/n-triples" || a.CType == "text/turtle" {
				a.Body = ""
			}
			if a.CType == "application/json" {
				var body any
				if err := json.Unmarshal([]byte(a.Body), &body); err == nil {
					data, _ := json.Marshal(withoutNull(body))
					a.Body = string(data)
				}
			}
			data, _ := json.Marshal(a)
			v["GET "+a.URL] = string(data)
		}
	}
	return v, nil
}

// differs tells where two views differ
func (v view) differs(w view) string {
	keys := map[string]bool{}
	for k := range v {
		keys[k] = true
	}
	for k := range w {
		keys[k] = true
	}
	names := []string{}
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		a, aok := v[k]
		b, bok := w[k]
		if a != b || aok != bok {
			i := 0
			for i < len(a) && i < len(b) && a[i] == b[i] {
				i++
			}
			if i > 60 {
				a, b = a[i-60:], b[i-60:]
			}
			return fmt.Sprintf("%s: %.300q instead of %.300q", k, b, a)
		}
	}
	return ""
}

func importFile(file string) (g glass.Glass, err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	g, err = glass.Import(file, nil)
	return
}

type archiveItem struct {
	siteSpec
	Labels []string `json:"labels"`
	Gens   int      `json:"gens"`   // generations of exporting and importing
	Follow int      `json:"follow"` // pages looked at
	Cuts   int      `json:"cuts"`   // every how many bytes to cut off (0: never)
	Limits int      `json:"limits"` // every how many bytes writing fails (0: never)
	Offset int      `json:"offset"`
}

// archiveEvent is one thing done with an archive
type archiveEvent struct {
	K    string `json:"k"`    // view, export, cut, import
	At   int    `json:"at"`   // length after an export or cut
	Size int    `json:"size"` // of complete export
	R    string `json:"r"`    // ok, error, the original view, or what is wrong
}

type archiveOut struct {
	Err  string           `json:"err,omitempty"`
	Runs [][]archiveEvent `json:"runs"`
	Keys int              `json:"keys"`
}

func sizeOf(file string) int {
	st, err := os.Stat(file)
	if err != nil {
		return 0
	}
	return int(st.Size())
}

func (item archiveItem) do(dir string) (out archiveOut) {
	g, err := siteSpec{Doc: item.Doc, NQ: item.NQ, PB: item.PB, XML: item.XML, Cache: item.Cache, Public: item.Public, Tipsy: item.Tipsy, Strict: item.Strict, HTML: item.HTML, Images: item.Images}.glass(dir, nil)
	if err != nil {
		out.Err = err.Error()
		return
	}
	want, err := viewOf(&g, item.Labels, item.Follow)
	if err != nil {
		out.Err = err.Error()
		return
	}
	short, _ := viewOf(&g, item.Labels, 0)
	out.Keys = len(want)
	load := func(file string, want view, follow int) (*glass.Glass, string) {
		got, err, panicked := importFile(file)
		if panicked != "" {
			return nil, "crash: " + panicked
		}
		if err != nil {
			return nil, "error"
		}
		v, err := viewOf(&got, item.Labels, follow)
		if err != nil {
			return nil, "unusable: " + err.Error()
		}
		if d := want.differs(v); d != "" {
			return nil, "other data: " + d
		}
		return &got, "original"
	}
	status := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}

	// generations
	file := filepath.Join(dir, "x.export")
	current := &g
	run := []archiveEvent{}
	for i := 0; i < item.Gens; i++ {
		err := glass.Export(file, *current, nil)
		run = append(run, archiveEvent{K: "export", At: sizeOf(file), Size: sizeOf(file), R: status(err)})
		next, r := load(file, want, item.Follow)
		run = append(run, archiveEvent{K: "import", R: r})
		if next == nil {
			break
		}
		current = next
	}
	out.Runs = append(out.Runs, run)

	// files that are cut off
	if err := glass.Export(file, g, nil); err != nil {
		out.Err = err.Error()
		return
	}
	data, err := os.ReadFile(file)
	if err != nil {
		out.Err = err.Error()
		return
	}
	if item.Cuts > 0 {
		for at := item.Offset % item.Cuts; at < len(data); at += item.Cuts {
			// keep a file of its own, so that nothing is left of a longer one
			part := filepath.Join(dir, "part")
			if err := os.WriteFile(part, data[:at], 0o666); err != nil {
				panic(err)
			}
			_, r := load(part, short, 0)
			out.Runs = append(out.Runs, []archiveEvent{{K: "export", At: len(data), Size: len(data), R: "ok"}, {K: "cut", At: at}, {K: "import", R: r}})
		}
	}

	// exports that cannot be written further
	if item.Limits > 0 {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
		for at := item.Offset % item.Limits; at < len(data)+item.Limits+2; at += item.Limits {
			lim := filepath.Join(dir, "limited")
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(at), Max: old.Max}); err != nil {
				panic(err)
			}
			err := glass.Export(lim, g, nil)
			if rerr := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); rerr != nil {
				panic(rerr)
			}
			size := sizeOf(lim)
			_, r := load(lim, short, 0)
			full := size
			if err != nil && full <= size {
				full = size + 1 // what it would have been is not known
			}
			out.Runs = append(out.Runs, []archiveEvent{{K: "export", At: size, Size: full, R: status(err)}, {K: "import", R: r}})
			os.Remove(lim)
		}
	}
	return
}

func init() {
	handle("archive", func(item archiveItem) (any, error) {
		dir := scratch()
		defer cleanup(dir)
		return item.do(dir), nil
	})
}

type filesItem struct {
	siteSpec
	Dir string `json:"dir"`
}

func init() {
	// files writes the files a data set is made from
	handle("files", func(item filesItem) (any, error) {
		pb, nq, err := item.files(item.Dir)
		return map[string]string{"pb": pb, "nq": nq}, err
	})
	// viewfile looks at an export
	handle("viewfile", func(item struct{ File string }) (any, error) {
		out := map[string]any{}
		g, err, panicked := importFile(item.File)
		if panicked != "" {
			out["panic"] = panicked
			return out, nil
		}
		if err != nil {
			out["err"] = err.Error()
			return out, nil
		}
		labels := []string{}
		for _, b := range g.Cache.BundleNames() {
			for _, e := range g.Cache.Entities(b) {
				labels = append(labels, string(e.URI))
			}
		}
		v, err := viewOf(&g, labels, 0)
		if err != nil {
			out["err"] = err.Error()
			return out, nil
		}
		out["view"] = hashOf(answerJSON{Body: fmt.Sprint(map[string]string(v))})
		return out, nil
	})
}
