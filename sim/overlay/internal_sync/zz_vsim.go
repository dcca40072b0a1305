// Simulator seam in package internal/sync (build overlay only).

package sync

import _ "unsafe"

// vsimYield lets the simulator preempt the goroutine.
//
//go:linkname vsimYield
func vsimYield()
