package main

import (
	"fmt"

	"github.com/FAU-CDI/hangover"
)

// sourceCase is a command line
type sourceCase struct {
	Exports bool     `json:"exports"`
	Args    []string `json:"args"`
}

type sourceResult struct {
	Err    string `json:"err"`
	XML    string `json:"xml"`
	NQ     string `json:"nq"`
	Export string `json:"export"`
}

func init() {
	handle("source", func(cases []sourceCase) (any, error) {
		results := make([]sourceResult, len(cases))
		for i, c := range cases {
			func() {
				r := &results[i]
				defer func() {
					if p := recover(); p != nil {
						r.Err = fmt.Sprint("panic: ", p)
					}
				}()
				nq, xml, index, err := hangover.FindSource(c.Exports, c.Args...)
				r.NQ, r.XML, r.Export = nq, xml, index
				if err != nil {
					r.Err = "error: " + err.Error()
				}
			}()
		}
		return results, nil
	})
}
