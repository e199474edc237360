// Command verifharness executes cases (one JSON object per line) against the
// real code of buypal/oapi-go and records what it did. It is compiled into the
// module through a go build overlay; it uses exported API and black box runs only.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// M is a JSON object.
type M = map[string]interface{}

type handler func(c M) M

var handlers = map[string]handler{}

var (
	in       = flag.String("in", "", "cases")
	out      = flag.String("out", "", "results")
	from     = flag.Int("from", 0, "first case")
	jobs     = flag.Int("j", 1, "parallel cases")
	deadline = flag.Duration("deadline", 20*time.Second, "per case")
	cli      = flag.String("cli", "", "oapi binary")
	scratch  = flag.String("scratch", "", "scratch directory")
)

func main() {
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	f, err := os.Open(*in)
	must(err)
	defer f.Close()
	o, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	must(err)
	defer o.Close()

	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	type job struct {
		n    int
		line []byte
		done chan []byte
	}
	queue := make(chan *job, *jobs)
	order := make(chan *job, 2**jobs)
	for w := 0; w < *jobs; w++ {
		go func() {
			for j := range queue {
				j.done <- run(j.line)
			}
		}()
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bw := bufio.NewWriterSize(o, 1<<16)
		for j := range order {
			b := <-j.done
			bw.Write(b)
			bw.WriteByte('\n')
			if *jobs > 1 || len(order) == 0 {
				bw.Flush()
			}
		}
		bw.Flush()
	}()
	n := 0
	for sc.Scan() {
		if n >= *from {
			j := &job{n: n, line: append([]byte{}, sc.Bytes()...), done: make(chan []byte, 1)}
			order <- j
			queue <- j
		}
		n++
	}
	must(sc.Err())
	close(queue)
	close(order)
	wg.Wait()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// run executes one case; its outcome is added to the case as field "out".
func run(line []byte) []byte {
	var c M
	must(json.Unmarshal(line, &c))
	h, ok := handlers[c["m"].(string)]
	if !ok {
		must(fmt.Errorf("unknown mode %v", c["m"]))
	}
	res := make(chan M, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				res <- M{"panic": fmt.Sprint(r)}
			}
		}()
		res <- h(c)
	}()
	var r M
	select {
	case r = <-res:
	case <-time.After(*deadline):
		r = M{"hang": "no result in time"}
	}
	c["out"] = r
	b, err := json.Marshal(c)
	must(err)
	return b
}
