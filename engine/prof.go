package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

// Query profile for development (GOSYM_PROF=1).
var profOn = os.Getenv("GOSYM_PROF") != ""
var prof = struct {
	sync.Mutex
	m map[string]*profEnt
}{m: map[string]*profEnt{}}

type profEnt struct {
	n    int
	t    time.Duration
	max  time.Duration
	what string
}

func profAdd(where string, d time.Duration, what string) {
	prof.Lock()
	defer prof.Unlock()
	e := prof.m[where]
	if e == nil {
		e = &profEnt{}
		prof.m[where] = e
	}
	e.n++
	e.t += d
	if d > e.max {
		e.max = d
		e.what = what
	}
}

func profPrint() {
	type kv struct {
		k string
		e *profEnt
	}
	var l []kv
	for k, e := range prof.m {
		l = append(l, kv{k, e})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].e.t > l[j].e.t })
	for i, x := range l {
		if i >= 25 {
			break
		}
		w := x.e.what
		if len(w) > 400 {
			w = w[:400]
		}
		fmt.Fprintf(os.Stderr, "PROF %8.1fs n=%d max=%.2fs %s :: %s\n", x.e.t.Seconds(), x.e.n, x.e.max.Seconds(), x.k, w)
	}
}
