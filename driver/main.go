// Command zzverif drives the code of the repository for the checks in /verif.
//
// Every command reads one JSON value per line from standard input, and writes
// one line of JSON per line read to standard output.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync/atomic"
)

// commands maps names of commands to functions handling one item
var commands = map[string]func(item []byte) (any, error){}

// handle registers a command
func handle[T any](name string, f func(item T) (any, error)) {
	commands[name] = func(raw []byte) (any, error) {
		var item T
		if err := json.Unmarshal(raw, &item); err != nil {
			return nil, fmt.Errorf("bad item for %s: %w", name, err)
		}
		return f(item)
	}
}

// args are the remaining arguments of the command
var args []string

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver COMMAND ...")
		os.Exit(3)
	}
	f, ok := commands[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(3)
	}
	args = os.Args[2:]
	debug.SetMemoryLimit(6 << 30)

	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			res, ferr := f(line)
			if ferr != nil {
				out.Flush()
				fmt.Fprintln(os.Stderr, "driver:", ferr)
				os.Exit(3)
			}
			if err := enc.Encode(res); err != nil {
				fmt.Fprintln(os.Stderr, "driver:", err)
				os.Exit(3)
			}
			out.Flush()
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}

var scratchCount atomic.Int64

// scratch returns a new directory inside the scratch directory of this run
func scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		panic("driver: VERIF_SCRATCH not set")
	}
	p := filepath.Join(base, fmt.Sprintf("s%d", scratchCount.Add(1)))
	if err := os.MkdirAll(p, 0o777); err != nil {
		panic("driver: " + err.Error())
	}
	return p
}

// cleanup removes a directory made by scratch
func cleanup(p string) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" || filepath.Dir(p) != base {
		panic("driver: refusing to clean up " + p)
	}
	os.RemoveAll(p)
}
