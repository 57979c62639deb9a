package main

import (
	"runtime"
	"sync/atomic"
	"time"
)

// Schedule perturbation: with the instrumented build, perturbHook is called before every statement of fab.
// Which sites are slow changes with the epoch, which is set for every case.

var (
	perturbEpoch atomic.Uint64
	perturbCtr   atomic.Uint64
	perturbOn    atomic.Bool
	siteSeen     [1 << 13]atomic.Uint32
)

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func perturbHook(site int) {
	if site < len(siteSeen) && siteSeen[site].Load() == 0 {
		siteSeen[site].Store(1)
	}
	if !perturbOn.Load() {
		return
	}
	e := perturbEpoch.Load()
	r := mix(perturbCtr.Add(1) ^ e<<20)
	slow := mix(e^uint64(site)*0x9e3779b97f4a7c15)%32 == 0
	switch {
	case slow && r%3 == 0:
		time.Sleep(time.Duration(20+r>>8%200) * time.Microsecond)
	case r%13 == 0:
		runtime.Gosched()
	case r%997 == 0:
		time.Sleep(time.Duration(r>>8%300) * time.Microsecond)
	}
}

func sitesReached() int64 {
	var n int64
	for i := range siteSeen {
		if siteSeen[i].Load() != 0 {
			n++
		}
	}
	return n
}
