//go:build race

package hook

import "runtime"

// Race tells whether this is the race build.
const Race = true

// Hide makes the race detector ignore the synchronisation of this goroutine until Show.
//
//go:norace
func Hide() { runtime.RaceDisable() }

// Show ends Hide.
//
//go:norace
func Show() { runtime.RaceEnable() }
