package tr

import "github.com/arr-ai/hash"

// SeedHash makes the hash function of built-in types depend on the seed only.
func SeedHash(seed uint64) {
	r := NewRng(seed ^ 0xabcdef)
	a, h := hash.GetSeeds()
	a2 := append([]byte(nil), a...)
	for i := range a2 {
		a2[i] = byte(r.U64())
	}
	h2 := append([]uintptr(nil), h...)
	for i := range h2 {
		h2[i] = uintptr(r.U64()) | 1
	}
	if err := hash.SetSeeds(a2, h2); err != nil {
		panic(err)
	}
}
