// Package sched runs a few bodies under a scheduler that decides every switch between them.
package sched

// #cgo CFLAGS: -fno-instrument-functions -fno-sanitize-coverage=trace-pc -fno-sanitize=thread
// #include "vsched.h"
import "C"

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"time"
	"unsafe"
)

// The kinds of points at which a thread can be preempted.
const (
	Func   = C.P_FUNC
	Stmt   = C.P_STMT
	CFunc  = C.P_CFUNC
	CBlock = C.P_CBLOCK
	Mem    = C.P_MEM
	Fine   = Func | Stmt | CFunc | CBlock
	Coarse = Func | CFunc
)

// Point is called by the instrumented code before every statement.
func Point() { C.vs_point(C.P_STMT) }

// Enter is called by the instrumented code at the start of every function.
func Enter() { C.vs_point(C.P_FUNC) }

// Controlled tells if the scheduler decides about this thread.
func Controlled() bool { return C.vs_controlled() != 0 }

// Block waits for Wake on the same thing, other threads run.
func Block(on unsafe.Pointer) { C.vs_block(C.ulong(uintptr(on))) }

// Wake lets the threads that wait for a thing go on.
func Wake(on unsafe.Pointer) { C.vs_wake(C.ulong(uintptr(on))) }

// MayBlock is called by the instrumented code before what may wait without the scheduler knowing.
func MayBlock() { C.vs_mayblock() }

// Spawned is called by the instrumented code before it starts a goroutine.
func Spawned() { C.vs_spawned() }

// Yield lets another thread go on.
func Yield() { C.vs_yield() }

// Race describes two accesses of the last run that nothing keeps apart, or is empty.
func Race() string {
	var r [4]C.ulong
	if C.vs_race(&r[0]) == 0 {
		return ""
	}
	kind := func(w bool) string {
		if w {
			return "writes"
		}
		return "reads"
	}
	k := int(r[0]) - 1
	self, _ := os.Executable()
	where := func(pc C.ulong) string {
		out, err := exec.Command("addr2line", "-f", "-e", self, fmt.Sprintf("0x%x", uint64(pc)-1)).Output()
		if err != nil {
			return ""
		}
		return strings.Join(strings.Fields(string(out)), " ")
	}
	return fmt.Sprintf("one thread %s memory (%s) while another is about to use it (it %s it, %s)", kind(k&1 != 0), where(r[1]), kind(k&2 != 0), where(r[2]))
}

// A Preempt hands over to a thread at a point. Points are counted when there is another thread that could run.
type Preempt struct {
	At     int
	Target int
}

type job struct {
	id   int
	body func()
}

var jobs []chan job
var done = make(chan int, 16)

var heap = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
var manual bool

// collect frees memory between the runs, a collection at a random time of a run is nothing the scheduler
// decides about.
func collect() {
	if !manual {
		debug.SetGCPercent(-1)
		manual = true
	}
	if metrics.Read(heap); heap[0].Value.Uint64() > 64<<20 {
		runtime.GC()
	}
}

// Run runs the bodies and returns the number of points where another thread could have gone on, and the
// number of all steps. A body must not panic.
func Run(bodies []func(), first, mask int, pre []Preempt) (points, steps, switches int) {
	for len(jobs) < len(bodies) {
		ch := make(chan job)
		jobs = append(jobs, ch)
		go func() {
			runtime.LockOSThread()
			for j := range ch {
				C.vs_begin(C.int(j.id))
				j.body()
				C.vs_end(C.int(j.id))
				done <- j.id
			}
		}()
	}
	collect()
	C.vs_setup(C.int(len(bodies)), C.int(first), C.int(mask))
	for _, p := range pre {
		C.vs_preempt(C.long(p.At), C.int(p.Target))
	}
	for i, b := range bodies {
		jobs[i] <- job{i, b}
	}
	C.vs_go()
	last, since, stalls, marked := C.long(-1), time.Now(), 0, 0
	const tick = 2 * time.Millisecond
	timer := time.NewTimer(tick)
	defer timer.Stop()
	for left := len(bodies); left > 0; {
		select {
		case <-done:
			left--
		case <-timer.C:
			timer.Reset(tick)
			if s := C.vs_steps(); s != last {
				last, since, stalls, marked = s, time.Now(), 0, 0
			} else if marked < 50 && C.vs_mayblocked() != 0 {
				marked++
				since = time.Now()
				C.vs_stalled()
			} else if time.Since(since) > 80*time.Millisecond && stalls < 50 {
				stalls++
				since = time.Now()
				C.vs_stalled()
			} else if time.Since(since) > 30*time.Second {
				fmt.Fprintln(os.Stderr, "the threads wait forever")
				os.Exit(78)
			}
		}
	}
	return int(C.vs_points()), int(C.vs_steps()), int(C.vs_switches())
}
