//go:build race

package tr

import "math/rand/v2"

// Quiet says that callbacks synchronise with nobody: an atomic counter in a
// callback would order the goroutines that call it and hide their races.
const Quiet = true

// NextTag marks copies of a value, so that they can be told apart.
func NextTag() int32 { return int32(rand.Uint32() & 0xffff) }
