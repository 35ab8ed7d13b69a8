//go:build !race

package rt

import "unsafe"

// RaceBuild tells whether this is a race-detector build.
const RaceBuild = false

func raceOff()                 {}
func raceOn()                  {}
func raceForkRelease(t *Task)  {}
func raceForkAcquire(t *Task)  {}
func raceEndRelease(t *Task)   {}
func raceJoin(t *Task)         {}
func raceAcq(p unsafe.Pointer) {}
func raceRel(p unsafe.Pointer) {}

func raceRead(b []byte)  {}
func raceWrite(b []byte) {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }
