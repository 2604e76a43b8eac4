package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// A call that does not return within hangAfter is recorded as a hang: the
// trace so far is written out with it and the driver stops.
var (
	hangAfter = 20 * time.Second
	running   int64 // start time of the current call, 0 when none
	curMu     sync.Mutex
	curOp     *Op
	onHang    func(o *Op)
)

var epoch = time.Now()

func tick(t *Target, o *Op) {
	if frozen {
		return
	}
	curOp = o
	atomic.StoreInt64(&running, atomic.LoadInt64(&clock)+1)
}

func tock() {
	if !frozen {
		atomic.StoreInt64(&running, 0)
	}
}

// clock counts quarter seconds; reading it is cheaper than reading the time.
var clock int64

func startWatchdog() {
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			now := atomic.AddInt64(&clock, 1)
			r := atomic.LoadInt64(&running)
			if r != 0 && now+1-r > int64(hangAfter/(250*time.Millisecond)) {
				if onHang != nil {
					onHang(curOp)
				}
				fmt.Println("HANG", curOp.Op)
				os.Exit(0)
			}
		}
	}()
}

func fatal(x ...interface{}) {
	fmt.Fprintln(os.Stderr, x...)
	os.Exit(3)
}
