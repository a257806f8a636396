package main

import (
	"database/sql"
	"fmt"
	"path/filepath"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	_ "github.com/glebarez/go-sqlite"
)

// tablesRun is one way of exporting
type tablesRun struct {
	Batch  int    `json:"batch"`
	Vars   int    `json:"vars"`
	Fields bool   `json:"fields"` // make field tables
	Sep    string `json:"sep"`
	Times  int    `json:"times"`
	Before []Stmt `json:"before"` // another data set exported before
	Other  bool   `json:"other"`  // export in the other layout before
	Store  string `json:"store"`
	Keep   bool   `json:"keep"` // keep the database open
}

type tablesItem struct {
	Doc  []Stmt      `json:"doc"`
	PB   []PB        `json:"pb"`
	Runs []tablesRun `json:"runs"`
}

type sqlTable struct {
	Columns []string    `json:"columns"`
	Rows    [][]*string `json:"rows"`
}

type tablesOut struct {
	Err    string               `json:"err,omitempty"`
	Tables map[string]sqlTable `json:"tables"`
}

// tablesOf reads all tables of a database
func tablesOf(db *sql.DB) (map[string]sqlTable, error) {
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	if err != nil {
		return nil, err
	}
	var names []string
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			return nil, err
		}
		names = append(names, n)
	}
	rows.Close()
	out := make(map[string]sqlTable)
	for _, n := range names {
		rows, err := db.Query(`SELECT * FROM "` + n + `"`)
		if err != nil {
			return nil, err
		}
		var t sqlTable
		t.Columns, err = rows.Columns()
		if err != nil {
			return nil, err
		}
		t.Rows = [][]*string{}
		for rows.Next() {
			vals := make([]any, len(t.Columns))
			row := make([]*string, len(t.Columns))
			for i := range vals {
				vals[i] = &row[i]
			}
			if err := rows.Scan(vals...); err != nil {
				return nil, err
			}
			t.Rows = append(t.Rows, row)
		}
		if err := rows.Err(); err != nil {
			return nil, err
		}
		rows.Close()
		out[n] = t
	}
	return out, nil
}

func (item tablesItem) run(run tablesRun) (out tablesOut) {
	defer func() {
		if p := recover(); p != nil {
			out.Err = fmt.Sprint("panic: ", p)
		}
	}()
	fail := func(err error) tablesOut {
		out.Err = err.Error()
		return out
	}
	dir := scratch()
	defer cleanup(dir)
	file := filepath.Join(dir, "out.db")

	var db *sql.DB
	once := func(doc []Stmt, fields bool) error {
		pb, err := makePB(item.PB)
		if err != nil {
			return err
		}
		index, done, err := indexSpec{Doc: doc}.make()
		if err != nil {
			return err
		}
		defer done()
		if db == nil || !run.Keep {
			db, err = sql.Open("sqlite", file)
			if err != nil {
				return err
			}
		}
		store := ""
		if run.Store == "disk" {
			store = filepath.Join(dir, "store")
		}
		return sparkl.Export(&pb, index, storages.NewBundleEngine(store), &exporter.SQL{
			SkipClose: run.Keep, DB: db, BatchSize: run.Batch, MaxQueryVar: run.Vars, MakeFieldTables: fields, Separator: run.Sep,
		}, nil)
	}
	if run.Before != nil {
		if err := once(run.Before, run.Fields); err != nil {
			return fail(err)
		}
	}
	if run.Other {
		if err := once(item.Doc, !run.Fields); err != nil {
			return fail(err)
		}
	}
	for i := 0; i < run.Times; i++ {
		if err := once(item.Doc, run.Fields); err != nil {
			return fail(err)
		}
	}
	if !run.Keep {
		var err error
		db, err = sql.Open("sqlite", file)
		if err != nil {
			return fail(err)
		}
	}
	defer db.Close()
	var err error
	out.Tables, err = tablesOf(db)
	if err != nil {
		return fail(err)
	}
	return out
}

func init() {
	handle("tables", func(item tablesItem) (any, error) {
		var outs []tablesOut
		for _, r := range item.Runs {
			outs = append(outs, item.run(r))
		}
		return outs, nil
	})
}
