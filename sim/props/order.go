package props

import (
	"cmp"
	"slices"
)

// sorted gives the keys of a map in order: what an oracle finds first must not
// depend on the order in which Go visits a map.
func sorted[K cmp.Ordered, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}
