package main

import (
	"errors"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
)

type identOp struct {
	Op string `json:"op"`
	X  string `json:"x"`
	Y  string `json:"y"`
}

type identItem struct {
	Engine string    `json:"engine"`
	Filler int       `json:"filler"`
	Ops    []identOp `json:"ops"`
	Labels []string  `json:"labels"` // labels to tabulate
	Every  bool      `json:"every"`  // tabulate after every operation
	Check  bool      `json:"check"`  // check names and ids of all fillers at the end
}

type identRes struct {
	Op    string            `json:"op"`
	X     string            `json:"x"`
	Y     string            `json:"y"`
	Ret   string            `json:"ret"`
	Table map[string]string `json:"table,omitempty"`
}

type identOut struct {
	Res     []identRes        `json:"res"`
	Table   map[string]string `json:"table"`
	Aliases map[string]string `json:"aliases"`
	Bad     []string          `json:"bad"`
}

func newImap(engine string) (*imap.IMap, func(), error) {
	var mp imap.IMap
	if engine == "disk" {
		p := scratch()
		var de igraph.DiskEngine
		de.Path = p
		if err := mp.Reset(de); err != nil {
			return nil, nil, err
		}
		return &mp, func() { mp.Close(); cleanup(p) }, nil
	}
	if err := mp.Reset(&igraph.MemoryEngine{}); err != nil {
		return nil, nil, err
	}
	return &mp, func() {}, nil // closing collects garbage, which is slow
}

func init() {
	handle("identity", func(item identItem) (any, error) {
		mp, done, err := newImap(item.Engine)
		if err != nil {
			return nil, err
		}
		defer done()

		out := identOut{Res: []identRes{}, Bad: []string{}}
		bad := func(s string) {
			if len(out.Bad) < 20 {
				out.Bad = append(out.Bad, s)
			}
		}

		// ids handed out so far, and who owns them
		owner := make(map[impl.ID]string)
		ids := make(map[string]impl.ID)
		learn := func(l string, id impl.ID) {
			if !id.Valid() {
				bad("invalid id for " + l)
			}
			if old, ok := ids[l]; ok && old != id {
				bad("identity of " + l + " changed")
			}
			if o, ok := owner[id]; ok && o != l {
				bad("identity of " + l + " is that of " + o)
			}
			ids[l], owner[id] = id, l
		}
		name := func(id impl.ID) string {
			l, err := mp.Reverse(id)
			if err != nil {
				return "error: " + err.Error()
			}
			return S(l)
		}
		refused := func(err error) string {
			if errors.Is(err, imap.ErrFinalized) {
				return "refused"
			}
			return "error: " + err.Error()
		}
		table := func() map[string]string {
			t := make(map[string]string)
			for _, l := range item.Labels {
				tid, ok, err := mp.Get(U(l))
				if err != nil {
					t[l] = "error: " + err.Error()
					continue
				}
				fid, err := mp.Forward(U(l))
				if err != nil {
					t[l] = "error: " + err.Error()
					continue
				}
				if !ok {
					if fid.Valid() {
						bad("unknown resource " + l + " has an id")
					}
					t[l] = "-"
					continue
				}
				if fid != tid.Canonical {
					bad("canonical of " + l + " differs between Get and Forward")
				}
				learn(l, tid.Literal)
				if name(tid.Literal) != l {
					bad("name of " + l + " is " + name(tid.Literal))
				}
				t[l] = name(fid)
			}
			return t
		}

		for i := 0; i < item.Filler; i++ {
			l := fillerName(i)
			tid, err := mp.Add(U(l))
			if err != nil {
				return nil, err
			}
			learn(l, tid.Literal)
			if tid.Literal != tid.Canonical {
				bad("filler " + l + " is not its own canonical")
			}
		}

		for _, op := range item.Ops {
			r := identRes{Op: op.Op, X: op.X, Y: op.Y}
			switch op.Op {
			case "add":
				tid, err := mp.Add(U(op.X))
				if err != nil {
					r.Ret = refused(err)
				} else {
					learn(op.X, tid.Literal)
					r.Ret = name(tid.Canonical)
				}
			case "mark":
				id, err := mp.MarkIdentical(U(op.X), U(op.Y))
				if err != nil {
					r.Ret = refused(err)
				} else {
					r.Ret = name(id)
				}
			case "fresh":
				id := mp.Next()
				r.Ret = "new"
				if o, ok := owner[id]; ok {
					r.Ret = "id of " + o
				}
				owner[id] = "(fresh)"
			case "compact":
				r.Ret = "ok"
				if err := mp.Compact(); err != nil {
					r.Ret = "error: " + err.Error()
				}
			case "fin":
				r.Ret = "ok"
				if err := mp.Finalize(); err != nil {
					r.Ret = refused(err)
				}
			default:
				return nil, errors.New("unknown op " + op.Op)
			}
			if item.Every {
				r.Table = table()
			}
			out.Res = append(out.Res, r)
		}
		out.Table = table()

		aliases := imap.MakeMemory[impl.Label, impl.Label](0)
		if err := mp.IdentityMap(&aliases); err != nil {
			bad("identity map: " + err.Error())
		}
		out.Aliases = make(map[string]string)
		aliases.Iterate(func(k, v impl.Label) error { out.Aliases[S(k)] = S(v); return nil })

		if item.Check {
			for i := 0; i < item.Filler; i++ {
				l := fillerName(i)
				tid, ok, err := mp.Get(U(l))
				if err != nil || !ok {
					bad("filler " + l + " is gone")
					continue
				}
				learn(l, tid.Literal)
				if name(tid.Literal) != l {
					bad("name of " + l + " is " + name(tid.Literal))
				}
				if tid.Canonical != tid.Literal {
					bad("filler " + l + " lost its canonical")
				}
			}
		}
		return out, nil
	})
}

func fillerName(i int) string {
	const digits = "0123456789abcdef"
	b := []byte("fill/")
	for s := 20; s >= 0; s -= 4 {
		b = append(b, digits[(i>>s)&15])
	}
	return string(b)
}
