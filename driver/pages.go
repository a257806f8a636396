package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
)

// pagesItem crawls the pages of the first bundle
type pagesItem struct {
	siteSpec
	Name string     `json:"name"`
	Ask  []pageView `json:"ask"` // limit = 0: the bundle without any parameters
}

// pageView is a page of spec/Paging.tla
type pageView struct {
	Limit int      `json:"limit"`
	Skip  int      `json:"skip"`
	Items []string `json:"items"`
	From  int      `json:"from"`
	To    int      `json:"to"`
	Of    int      `json:"of"`
	First int      `json:"first"`
	Prev  int      `json:"prev"`
	Next  int      `json:"next"`
	Last  int      `json:"last"`

	links map[string]string
}

type pageStep struct {
	Op     string    `json:"op"`
	URL    string    `json:"url"`
	Status int       `json:"status"`
	Page   *pageView `json:"page"`
}

type pagesOut struct {
	Err     string       `json:"err"`
	Listing []string     `json:"listing"`
	Walks   [][]pageStep `json:"walks"`
}

// where reads limit and skip of the address of a page
func where(target string) (limit, skip int) {
	u, err := url.Parse(target)
	if err != nil {
		return -1, -1
	}
	limit, err = strconv.Atoi(u.Query().Get("limit"))
	if err != nil || limit <= 0 || limit > 1000 {
		limit = 100
	}
	skip, err = strconv.Atoi(u.Query().Get("skip"))
	if err != nil || skip < 0 {
		skip = 0
	}
	return
}

func step(h http.Handler, op, target string) (s pageStep) {
	a := get(h, target, false)
	s.Op, s.URL, s.Status = op, target, a.Status
	if a.Panic != "" || a.Status != 200 || a.Page == nil || a.Page.Loading {
		return
	}
	p := pageView{Items: []string{}, First: -1, Prev: -1, Next: -1, Last: -1, links: map[string]string{}}
	p.Limit, p.Skip = where(target)
	for _, l := range a.Page.Items {
		u, err := url.Parse(l.Href)
		if err != nil {
			return
		}
		// the entity it names is the entity it leads to
		if !strings.HasPrefix(u.Path, "/entity/") || u.Query().Get("uri") != l.Text {
			p.Items = append(p.Items, "wrong link "+l.Href)
			continue
		}
		p.Items = append(p.Items, l.Text)
	}
	t := a.Page.Showing
	if n, _ := fmt.Sscanf(t, "Showing Items %d - %d of %d", &p.From, &p.To, &p.Of); n != 3 {
		fmt.Sscanf(t, "Showing Item %d of %d", &p.From, &p.Of)
		p.To = p.From
	}
	for _, l := range a.Page.Pages {
		limit, skip := where(l.Href)
		if limit != p.Limit {
			skip = -2
		}
		switch l.Text {
		case "First":
			p.First = skip
		case "Prev":
			p.Prev = skip
		case "Next":
			p.Next = skip
		case "Last":
			p.Last = skip
		}
		key := strings.ToLower(l.Text)
		if old, ok := p.links[key]; ok && old != l.Href {
			return // both navigations agree
		}
		p.links[key] = l.Href
	}
	s.Page = &p
	return
}

func init() {
	handle("pages", func(item pagesItem) (any, error) {
		dir := scratch()
		defer cleanup(dir)
		v := item.viewer()
		_, err := item.load(v, dir, func(f func()) { f() })
		if err != nil {
			return pagesOut{Err: err.Error()}, nil
		}
		out := pagesOut{Walks: [][]pageStep{}}
		name := url.PathEscape(item.Name)
		if err := json.Unmarshal([]byte(get(v, "/api/v1/bundle/"+name, false).Body), &out.Listing); err != nil {
			return pagesOut{Err: "listing: " + err.Error()}, nil
		}
		resolve := func(base, href string) string {
			b, err1 := url.Parse(base)
			r, err2 := url.Parse(href)
			if err1 != nil || err2 != nil {
				return "/bad"
			}
			return b.ResolveReference(r).RequestURI()
		}
		seen := map[string]bool{}
		var expand func(at pageStep)
		expand = func(at pageStep) {
			if at.Page == nil || seen[at.URL] {
				return
			}
			seen[at.URL] = true
			for op, href := range at.Page.links {
				target := resolve(at.URL, href)
				if len(seen) > 400 {
					return
				}
				s := step(v, op, target)
				out.Walks = append(out.Walks, []pageStep{{Op: "open", URL: at.URL, Status: at.Status, Page: at.Page}, s})
				expand(s)
			}
		}
		for _, a := range item.Ask {
			target := "/bundle/" + name
			if a.Limit > 0 {
				target += fmt.Sprintf("?limit=%d&skip=%d", a.Limit, a.Skip)
			}
			walk := []pageStep{step(v, "open", target)}
			expand(walk[0])
			for at := walk[0]; at.Page != nil && at.Page.links["next"] != "" && len(walk) < 1000; {
				at = step(v, "next", resolve(at.URL, at.Page.links["next"]))
				walk = append(walk, at)
			}
			out.Walks = append(out.Walks, walk)
		}
		return out, nil
	})
}
