package sym

import (
	"sync"

	"verif/harness/symsync"
)

func startSched(log []int) { symsync.Start(log) }
func endSched()            { symsync.End() }

// Go runs the closures as goroutines and waits for them.
func Go(fs ...func()) {
	cur.Multi = true
	if symsync.Active() {
		symsync.Go(fs...)
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stop); ok {
						return
					}
					panic(x)
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// Yield is a scheduling point.
func Yield() { symsync.Yield() }
