//go:build !race

package tr

import "sync/atomic"

// Quiet: see the race build.
const Quiet = false

var tagCounter int64

// NextTag marks copies of a value, so that they can be told apart.
func NextTag() int32 { return int32(atomic.AddInt64(&tagCounter, 1) & 0xffff) }
