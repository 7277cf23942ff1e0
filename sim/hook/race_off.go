//go:build !race

package hook

// Race tells whether this is the race build.
const Race = false

// Hide makes the race detector ignore the synchronisation of this goroutine until Show.
func Hide() {}

// Show ends Hide.
func Show() {}
