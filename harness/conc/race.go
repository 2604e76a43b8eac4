package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync/atomic"
	"time"
)

func init() { modes["race"] = modeRace }

// modeRace makes pairs of calls at the same time, on the library as it is,
// for the race detector to watch.
func modeRace() {
	rng := rand.New(rand.NewSource(*fSeed))
	var share, shares int
	fmt.Sscanf(strings.Replace(*fVar, "/", " ", 1), "%d %d", &share, &shares)
	ops := concOps()
	// fill the method cache: later it is only read
	warm := reflect.TypeOf(newBuffer())
	for i := 0; i < warm.NumMethod(); i++ {
		m := warm.Method(i)
		methodCache[methodKey{warm, m.Name}] = m.Func
	}
	quiet, frozen = true, true
	big := bigOps(5000, 1)
	pairs, calls, hung := 0, 0, 0
	race := func(a, b *Op, size, times int) {
		pairs++
		fmt.Fprintf(os.Stdout, "PAIR %s%s%s | %s%s%s\n", a.Op, a.K, next(a), b.Op, b.K, next(b))
		for it := 0; it < times; it++ {
			t := setup("buffer", make([]byte, size), 4, 13, int(4*rng.Intn(3)))
			var ready int32
			done := make(chan bool, 2)
			run := func(o *Op) {
				atomic.AddInt32(&ready, 1)
				for s := 0; atomic.LoadInt32(&ready) < 2 && s < 100000; s++ {
				}
				for c := 0; c < 3; c++ {
					silent(t, o)
				}
				done <- true
			}
			go run(a)
			go run(b)
			calls += 6
			limit := time.After(30 * time.Second)
			for q := 0; q < 2; q++ {
				select {
				case <-done:
				case <-limit:
					fmt.Printf("HUNG %s | %s\n", a.Op, b.Op)
					fmt.Printf("pairs=%d calls=%d hung=1\n", pairs, calls)
					os.Exit(0)
				}
			}
		}
	}
	k := 0
	for i := range ops {
		for j := i; j < len(ops); j++ {
			k++
			if k%shares != share {
				continue
			}
			race(ops[i], ops[j], 64, *fLen)
		}
		// calls that move much
		for j := range big {
			if k++; k%shares == share {
				race(ops[i], big[j], 5000, 2)
			}
		}
	}
	for i := range big {
		for j := i; j < len(big); j++ {
			if k++; k%shares == share {
				race(big[i], big[j], 5000, 2)
			}
		}
	}
	fmt.Printf("pairs=%d calls=%d hung=%d\n", pairs, calls, hung)
}

func next(o *Op) string {
	if o.Next {
		return "Next"
	}
	return ""
}

// silent makes the call and looks at nothing it returns.
func silent(t *Target, o *Op) {
	defer func() { recover() }()
	t.exec(o)
}
