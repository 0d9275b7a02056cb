package vlib

import (
	"runtime"
	"runtime/metrics"
	"time"
)

var quietSamples = []metrics.Sample{
	{Name: "/sched/goroutines/runnable:goroutines"},
	{Name: "/sched/goroutines/running:goroutines"},
	{Name: "/sched/goroutines/not-in-go:goroutines"},
}

// Idle reports whether, at this instant, the caller's goroutine is the only
// one in the process that can run.
func Idle() bool {
	metrics.Read(quietSamples)
	return quietSamples[0].Value.Uint64() == 0 && quietSamples[1].Value.Uint64() <= 1 && quietSamples[2].Value.Uint64() == 0
}

// IdleFor reports whether the process stays idle over n looks, a millisecond apart.
func IdleFor(n int) bool {
	for i := 0; i < n; i++ {
		time.Sleep(time.Millisecond)
		if !Idle() {
			return false
		}
	}
	return true
}

// WaitIdle lets the other goroutines run until none can, or until they have
// burnt the CPU time given (then it reports false: they do not come to rest).
func WaitIdle(maxCPU time.Duration) bool {
	start := cpuTime()
	for i := 0; ; i++ {
		runtime.Gosched()
		if Idle() {
			return true
		}
		if i%64 == 63 && cpuTime()-start > maxCPU {
			return false
		}
	}
}

// CPU is the CPU time the process has used.
func CPU() time.Duration { return cpuTime() }
