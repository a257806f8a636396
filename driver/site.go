package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"html/template"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/anglo-korean/rdf"
	"golang.org/x/net/html"
)

// siteSpec says how to make a data set, and the viewer serving it
type siteSpec struct {
	Doc     []Stmt `json:"doc"`
	NQ      string `json:"nq"` // verbatim, appended to the document
	PB      []PB   `json:"pb"`
	XML     string `json:"xml"`   // verbatim, instead of the pathbuilder
	Cache   bool   `json:"cache"` // use an on-disk cache
	Imports int    `json:"imports"`
	Public  string `json:"public"`
	Tipsy   string `json:"tipsy"`
	Strict  bool   `json:"strict"`
	HTML    bool   `json:"html"`
	Images  bool   `json:"images"`
	Footer  string `json:"footer"`
	Loading bool   `json:"loading"` // never ready
}

func (s siteSpec) flags() viewer.RenderFlags {
	return viewer.RenderFlags{PublicURL: s.Public, TipsyURL: s.Tipsy, StrictCSP: s.Strict, HTMLRender: s.HTML, ImageRender: s.Images, Predicates: indexSpec{}.predicates()}
}

func (s siteSpec) files(dir string) (pbf, nqf string, err error) {
	pbf, nqf = filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
	xml := s.XML
	if xml == "" {
		xml = pbXML(s.PB)
	}
	if err := os.WriteFile(pbf, []byte(xml), 0o666); err != nil {
		return "", "", err
	}
	return pbf, nqf, os.WriteFile(nqf, []byte(nquads(s.Doc)+s.NQ), 0o666)
}

// glass makes the data set, by exporting and importing it as often as asked for
func (s siteSpec) glass(dir string, st *stats.Stats) (g glass.Glass, err error) {
	pbf, nqf, err := s.files(dir)
	if err != nil {
		return g, err
	}
	cache := ""
	if s.Cache {
		cache = filepath.Join(dir, "cache")
		if err := os.Mkdir(cache, 0o777); err != nil {
			return g, err
		}
	}
	g, err = glass.Create(pbf, nqf, cache, s.flags(), st)
	if err != nil {
		return g, fmt.Errorf("create: %w", err)
	}
	for i := 0; i < s.Imports; i++ {
		file := filepath.Join(dir, fmt.Sprintf("export%d", i))
		if err := glass.Export(file, g, st); err != nil {
			return g, fmt.Errorf("export: %w", err)
		}
		g, err = glass.Import(file, st)
		if err != nil {
			return g, fmt.Errorf("import: %w", err)
		}
	}
	return g, nil
}

type linkJSON struct {
	Href string `json:"href"`
	Text string `json:"text"`
}

type cellJSON struct {
	Text string     `json:"text"`
	Lang string     `json:"lang"`
	Els  []elemJSON `json:"els"`
}
type elemJSON struct {
	Text string            `json:"text"`
	Tag  string            `json:"tag"`
	Attr map[string]string `json:"attr"`
}
type rowJSON struct {
	Name   string     `json:"name"`
	Values []cellJSON `json:"values"`
}

// tableJSON describes the fields of an entity
type tableJSON struct {
	H3   string    `json:"h3"` // heading the table stands below
	Rows []rowJSON `json:"rows"`
}

// pageJSON is what can be seen on a page
type pageJSON struct {
	Title   string            `json:"title"`
	H1      string            `json:"h1"`
	Links   []linkJSON        `json:"links"` // outside of the footer
	Items   []linkJSON        `json:"items"` // in lists
	Pages   []linkJSON        `json:"pages"` // of pagination
	Showing string            `json:"showing"`
	Aliases []string          `json:"aliases"`
	Tables  []tableJSON       `json:"tables"`
	Ids     []string          `json:"ids"` // ids of all elements
	Scripts []string          `json:"scripts"`
	Tags    [][]string        `json:"tags,omitempty"` // all elements with their attributes, if asked for
	Loading bool              `json:"loading"`
	Footer  string            `json:"footer"`
	Data    map[string]string `json:"data"` // of the editor
}

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}
func textOf(n *html.Node) string {
	var b strings.Builder
	var rec func(*html.Node)
	rec = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			rec(c)
		}
	}
	rec(n)
	return b.String()
}
func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }
func each(n *html.Node, f func(*html.Node) bool) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && !f(c) {
			continue
		}
		each(c, f)
	}
}

func cellOf(td *html.Node) (c cellJSON) {
	c.Text, c.Lang, c.Els = textOf(td), attr(td, "lang"), []elemJSON{}
	each(td, func(n *html.Node) bool {
		e := elemJSON{Text: textOf(n), Tag: n.Data, Attr: map[string]string{}}
		for _, a := range n.Attr {
			e.Attr[a.Key] = a.Val
		}
		c.Els = append(c.Els, e)
		return true
	})
	return
}

// fieldsOf reads the table of an entity
func fieldsOf(table *html.Node) (rows []rowJSON) {
	rows = []rowJSON{}
	n := 0
	for b := table.FirstChild; b != nil; b = b.NextSibling {
		if b.Type != html.ElementNode || b.Data != "tbody" {
			continue
		}
		n++
		if n == 1 {
			continue // triples, graph and downloads
		}
		for tr := b.FirstChild; tr != nil; tr = tr.NextSibling {
			if tr.Type != html.ElementNode || tr.Data != "tr" {
				continue
			}
			var tds []*html.Node
			for td := tr.FirstChild; td != nil; td = td.NextSibling {
				if td.Type == html.ElementNode {
					tds = append(tds, td)
				}
			}
			if len(tds) >= 3 && attr(tds[0], "class") == "collapse" && attr(tds[2], "class") == "collapse" {
				rows = append(rows, rowJSON{Name: squeeze(textOf(tds[0])), Values: []cellJSON{}})
				tds = tds[3:]
				if attr(tr.FirstChild, "") == "" && len(tds) == 1 && strings.TrimSpace(textOf(tds[0])) == "" && tds[0].FirstChild == nil {
					continue // no values
				}
			}
			if len(tds) > 0 && len(rows) > 0 {
				rows[len(rows)-1].Values = append(rows[len(rows)-1].Values, cellOf(tds[0]))
			}
		}
	}
	return
}

func parsePage(body string) (p pageJSON) {
	doc, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return
	}
	p.Links, p.Items, p.Pages, p.Aliases, p.Tables, p.Ids = []linkJSON{}, []linkJSON{}, []linkJSON{}, nil, []tableJSON{}, []string{}
	h2, h3 := "", ""
	inFooter := false
	pager := 0
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.ElementNode {
			if id := attr(n, "id"); id != "" {
				p.Ids = append(p.Ids, id)
				if id == "progress" {
					p.Loading = true
				}
				if id == "tipsy" {
					p.Data = map[string]string{}
					for _, a := range n.Attr {
						if strings.HasPrefix(a.Key, "data-") {
							p.Data[a.Key] = a.Val
						}
					}
				}
			}
			switch n.Data {
			case "title":
				p.Title = squeeze(textOf(n))
			case "h1":
				p.H1 = strings.TrimSpace(textOf(n))
			case "h2":
				h2, h3 = squeeze(textOf(n)), ""
				if h2 == "Aliases" {
					p.Aliases = []string{}
				}
			case "h3":
				h3 = squeeze(textOf(n))
			case "footer":
				inFooter = true
				p.Footer = textOf(n)
			case "script":
				if src := attr(n, "src"); src != "" {
					p.Scripts = append(p.Scripts, src)
				} else if attr(n, "type") != "application/json" {
					p.Scripts = append(p.Scripts, "inline")
				}
			case "code":
				if h2 == "Aliases" && !inFooter {
					p.Aliases = append(p.Aliases, textOf(n))
				}
			case "p":
				if t := squeeze(textOf(n)); strings.HasPrefix(t, "Showing Item") && !inFooter && h2 == "" {
					p.Showing = t
					pager++
				}
			case "table":
				if attr(n, "class") == "entity_table" {
					p.Tables = append(p.Tables, tableJSON{H3: h3, Rows: fieldsOf(n)})
				}
			case "a":
				l := linkJSON{Href: attr(n, "href"), Text: strings.TrimSpace(textOf(n))}
				if !inFooter {
					p.Links = append(p.Links, l)
					if n.Parent != nil && n.Parent.Data == "li" {
						p.Items = append(p.Items, l)
					}
					if pager > 0 && (l.Text == "First" || l.Text == "Prev" || l.Text == "Next" || l.Text == "Last") && n.Parent.Data == "p" {
						p.Pages = append(p.Pages, l)
					}
				}
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(doc)
	return
}

// tagsOf lists all elements with their attributes
func tagsOf(body string) (tags [][]string) {
	doc, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return
	}
	each(doc, func(n *html.Node) bool {
		t := []string{n.Data}
		for _, a := range n.Attr {
			t = append(t, a.Key, a.Val)
		}
		tags = append(tags, t)
		return true
	})
	return
}

// answerJSON is the answer to a request
type answerJSON struct {
	URL    string     `json:"url"`
	Status int        `json:"status"`
	CType  string     `json:"ctype"`
	CSP    []string   `json:"csp"`
	Loc    string     `json:"loc"`
	Panic  string     `json:"panic,omitempty"`
	Body   string     `json:"body,omitempty"` // unless a page
	Raw    string     `json:"raw,omitempty"`  // of a page, if asked for
	Page   *pageJSON  `json:"page,omitempty"`
	RDF    [][]string `json:"rdf"` // facts
	RDFErr string     `json:"rdferr,omitempty"`
}

func get(h http.Handler, target string, raw bool) (a answerJSON) {
	a.URL = target
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r)
		}
	}()
	method := "GET"
	if m, rest, ok := strings.Cut(target, " "); ok && m == strings.ToUpper(m) && !strings.HasPrefix(m, "/") {
		method, target = m, rest
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		a.Panic = "bad url " + err.Error()
		return
	}
	r := &http.Request{Method: method, URL: u, RequestURI: target, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost"}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	a.Status, a.CType, a.CSP, a.Loc = w.Code, strings.TrimSpace(strings.Split(w.Header().Get("Content-Type"), ";")[0]), w.Header()["Content-Security-Policy"], w.Header().Get("Location")
	body := w.Body.String()
	switch a.CType {
	case "text/html":
		p := parsePage(body)
		a.Page = &p
		if raw {
			a.Page.Tags = tagsOf(body)
			a.Raw = body
		}
	case "application/n-triples", "text/turtle":
		format := rdf.NTriples
		if a.CType == "text/turtle" {
			format = rdf.Turtle
		}
		a.Body = body
		facts, err := rdf.NewTripleDecoder(strings.NewReader(body), format).DecodeAll()
		if err != nil {
			a.RDFErr = err.Error()
		}
		a.RDF = [][]string{}
		for _, f := range facts {
			out := []string{f.Subj.String(), f.Pred.String(), f.Obj.String(), "r", ""}
			if l, ok := f.Obj.(rdf.Literal); ok {
				out[3], out[4] = "d", l.Lang()
			}
			a.RDF = append(a.RDF, out)
		}
	default:
		a.Body = body
	}
	return
}

// visit follows redirects
func visit(h http.Handler, target string, raw bool) (out []answerJSON) {
	for i := 0; i < 6; i++ {
		a := get(h, target, raw)
		out = append(out, a)
		if a.Panic != "" || a.Status/100 != 3 || a.Loc == "" {
			return
		}
		base, err := url.Parse(target)
		if err != nil {
			return
		}
		ref, err := url.Parse(a.Loc)
		if err != nil {
			return
		}
		next := base.ResolveReference(ref)
		if next.Host != "" {
			return
		}
		target = next.RequestURI()
	}
	return
}

type siteItem struct {
	siteSpec
	Get    []string `json:"get"`
	Follow int      `json:"follow"` // crawl at most this many pages
	Raw    bool     `json:"raw"`
	Before []string `json:"before"` // requests before loading
	Hammer int      `json:"hammer"` // request get all the time, in so many goroutines
}

// hammerEvent is something observed while loading
type hammerEvent struct {
	K    string `json:"k"` // begin, end, prepare, prepared
	I    int    `json:"i"` // request
	URL  string `json:"url,omitempty"`
	A    string `json:"a,omitempty"`    // see loadingAnswer
	Hash string `json:"hash,omitempty"` // of the answer
}

// loadingAnswer tells what kind of answer a is
func loadingAnswer(a answerJSON) string {
	switch {
	case a.Panic != "":
		return "broken: " + a.Panic
	case a.Page != nil && a.Page.Loading && a.Status == 200:
		return "loading-page"
	case a.Status == 503:
		var m struct {
			Message  string
			Progress struct{ Done *bool }
		}
		if err := json.Unmarshal([]byte(a.Body), &m); err != nil || m.Message == "" || m.Progress.Done == nil || *m.Progress.Done || a.CType != "application/json" {
			return "broken: 503 " + a.Body
		}
		return "loading-api"
	case a.Status >= 500:
		return fmt.Sprintf("broken: %d", a.Status)
	}
	return "data"
}

// hashOf identifies an answer; of loading pages and the like what matters
func hashOf(a answerJSON) string {
	a.CSP = nil
	switch loadingAnswer(a) {
	case "loading-page":
		a.URL, a.Raw = "", ""
		p := *a.Page
		p.Tags = nil
		a.Page = &p
	case "loading-api":
		a.URL, a.Body = "", ""
	}
	data, _ := json.Marshal(a)
	sum := sha256.Sum256(data)
	return hex.EncodeToString(sum[:8])
}

// hammer sends requests until told to stop
type hammer struct {
	m     sync.Mutex
	evs   []hammerEvent
	count int
	stop  atomic.Bool
	wg    sync.WaitGroup
}

func (h *hammer) event(e hammerEvent) {
	h.m.Lock()
	defer h.m.Unlock()
	h.evs = append(h.evs, e)
}
func (h *hammer) begin(target string) int {
	h.m.Lock()
	defer h.m.Unlock()
	h.count++
	h.evs = append(h.evs, hammerEvent{K: "begin", I: h.count, URL: target})
	return h.count
}
func (h *hammer) run(n int, handler http.Handler, targets []string) {
	for i := 0; i < n; i++ {
		i := i
		h.wg.Add(1)
		go func() {
			defer h.wg.Done()
			for j := i; ; j++ {
				last := h.stop.Load()
				id := h.begin(targets[j%len(targets)])
				a := get(handler, targets[j%len(targets)], true)
				h.event(hammerEvent{K: "end", I: id, URL: a.URL, A: loadingAnswer(a), Hash: hashOf(a)})
				if last {
					return
				}
				time.Sleep(time.Duration(j%7) * 300 * time.Microsecond)
			}
		}()
	}
}

type siteOut struct {
	Before        [][]answerJSON          `json:"before"`
	Hammer        []hammerEvent           `json:"hammer"`
	LoadingHashes []string                `json:"loadinghashes"`
	Final         map[string]string       `json:"final"` // hashes of the answers when done
	Err           string                  `json:"err,omitempty"`
	Answers       [][]answerJSON          `json:"answers"`
	Crawl         []answerJSON            `json:"crawl"`
	XML           string                  `json:"xml"`
	Bundles       map[string][]entityJSON `json:"bundles"`
	Flags         any                     `json:"flags"`
}

func crawl(h http.Handler, start []string, max int, raw bool) (out []answerJSON) {
	seen := map[string]bool{}
	queue := append([]string{}, start...)
	for len(queue) > 0 && len(out) < max {
		target := queue[0]
		queue = queue[1:]
		if seen[target] {
			continue
		}
		seen[target] = true
		a := get(h, target, raw)
		out = append(out, a)
		base, err := url.Parse(target)
		if err != nil {
			continue
		}
		next := []string{}
		if a.Loc != "" {
			next = append(next, a.Loc)
		}
		if a.Page != nil {
			for _, l := range a.Page.Links {
				next = append(next, l.Href)
			}
		}
		for _, n := range next {
			ref, err := url.Parse(n)
			if err != nil || (ref.Scheme != "" || ref.Host != "") {
				continue
			}
			queue = append(queue, base.ResolveReference(ref).RequestURI())
		}
	}
	return
}

func (s siteSpec) viewer() *viewer.Viewer {
	v := viewer.NewViewer(nil)
	v.RenderFlags = s.flags()
	v.Footer = template.HTML(s.Footer)
	return v
}
func (s siteSpec) load(v *viewer.Viewer, dir string, prepare func(f func())) (*glass.Glass, error) {
	if s.Loading {
		return nil, nil
	}
	g, err := s.glass(dir, v.Stats)
	if err != nil {
		return nil, err
	}
	v.Stats.DoStage(stats.StageHandler, func() error {
		prepare(func() { v.Prepare(g.Cache, &g.Pathbuilder) })
		return nil
	})
	return &g, nil
}

func glassBundles(g *glass.Glass) map[string][]entityJSON {
	data := map[string][]wisski.Entity{}
	for _, b := range g.Cache.BundleNames() {
		data[b] = g.Cache.Entities(b)
	}
	return bundlesOf(data)
}

func init() {
	handle("site", func(item siteItem) (any, error) {
		dir := scratch()
		defer cleanup(dir)
		out := siteOut{Answers: [][]answerJSON{}}
		v := item.viewer()
		for _, target := range item.Before {
			out.Before = append(out.Before, visit(v, target, item.Raw))
		}
		h := hammer{evs: []hammerEvent{}}
		if item.Hammer > 0 {
			h.run(item.Hammer, v, item.Get)
		}
		g, err := item.load(v, dir, func(f func()) {
			h.event(hammerEvent{K: "prepare"})
			f()
			h.event(hammerEvent{K: "prepared"})
		})
		h.stop.Store(true)
		h.wg.Wait()
		if err != nil {
			out.Err = err.Error()
			return out, nil
		}
		if item.Hammer > 0 {
			out.Hammer, out.Final = h.evs, map[string]string{}
			for _, chain := range out.Before {
				out.LoadingHashes = append(out.LoadingHashes, hashOf(chain[0]))
			}
			for _, target := range item.Get {
				out.Final[target] = hashOf(get(v, target, true))
			}
		}
		if g != nil {
			xml, err := pbxml.Marshal(g.Pathbuilder)
			if err != nil {
				return siteOut{Err: err.Error()}, nil
			}
			out.XML = string(xml)
			out.Bundles = glassBundles(g)
			flags := g.Flags
			flags.Stats = nil
			out.Flags = flags
		}
		for _, target := range item.Get {
			out.Answers = append(out.Answers, visit(v, target, item.Raw))
		}
		if item.Follow > 0 {
			out.Crawl = crawl(v, []string{"/", "/pathbuilder", "/about"}, item.Follow, item.Raw)
		}
		return out, nil
	})
}
