// Package yield is what instrumented copies of /repo's sources call before every
// statement: it gives up the processor or sleeps there, as the running case asks.
// It uses nothing that orders memory between goroutines, so that the race detector
// still sees what the code under test leaves unordered.
package yield

import (
	"math/rand/v2"
	"runtime"
	"time"
)

const maxSites = 1 << 14

var (
	seen   [maxSites]bool
	mode   int
	hot    [2]int
	rate   uint32
	delays int64
	calls  int64
	total  int
)

// Y is called before the statement numbered site.
//
//go:norace
//go:noinline
func Y(site int) {
	if mode == 0 {
		if site < maxSites && !seen[site] {
			seen[site] = true
			total++
		}
		return
	}
	if site < maxSites && !seen[site] {
		seen[site] = true
		total++
	}
	calls++
	switch mode {
	case 1: // give up the processor now and then
		if rand.Uint32()%1024 < rate {
			delays++
			runtime.Gosched()
		}
	case 2: // sleep now and then
		if rand.Uint32()%8192 < rate {
			delays++
			time.Sleep(time.Duration(rand.Uint32()%120) * time.Microsecond)
		}
	case 3: // always late at chosen places
		if site == hot[0] || site == hot[1] {
			delays++
			if rand.Uint32()%2 == 0 {
				time.Sleep(time.Duration(rand.Uint32()%250) * time.Microsecond)
			} else {
				for n := 1 + rand.Uint32()%4; n > 0; n-- {
					runtime.Gosched()
				}
			}
		}
	}
}

// Case chooses what happens during the next case.
//
//go:norace
func Case(r *rand.Rand) {
	if total == 0 {
		return
	}
	mode = r.IntN(6)
	if mode >= 3 {
		mode = 3
	}
	rate = []uint32{1, 10, 60, 300}[r.IntN(4)]
	var sites []int
	for i, s := range seen {
		if s {
			sites = append(sites, i)
		}
	}
	hot[0] = sites[r.IntN(len(sites))]
	hot[1] = sites[r.IntN(len(sites))]
}

// Stats: places executed, calls there, delays made (about: counting is not ordered).
//
//go:norace
func Stats() (int, int64, int64) { return total, calls, delays }
