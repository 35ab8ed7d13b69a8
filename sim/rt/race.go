//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether this is a race-detector build.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceForkRelease(t *Task) { runtime.RaceRelease(unsafe.Pointer(&t.racer)) }
func raceForkAcquire(t *Task) { runtime.RaceAcquire(unsafe.Pointer(&t.racer)) }
func raceEndRelease(t *Task)  { runtime.RaceReleaseMerge(unsafe.Pointer(&t.racer)) }
func raceJoin(t *Task)        { runtime.RaceAcquire(unsafe.Pointer(&t.racer)) }

func raceAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// raceRead and raceWrite tell the detector that the simulated kernel reads or writes a buffer of the caller.
func raceRead(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func raceWrite(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
