// Package rsync gives replaced sync types the name they have in package sync, for embedding.
package rsync

import "vsim/rt"

type (
	Mutex     = rt.Sync_Mutex
	RWMutex   = rt.Sync_RWMutex
	WaitGroup = rt.Sync_WaitGroup
	Once      = rt.Sync_Once
	Pool      = rt.Sync_Pool
	Map       = rt.Sync_Map
	Cond      = rt.Sync_Cond
)
