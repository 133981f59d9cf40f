package main

// Iteration in a fixed order: term identities depend on creation order, and
// the order of operands on identities.

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
)

// shuffle, for testing the machinery itself: another order of the same
// traversal must not change a verdict.
var shuffle, _ = strconv.Atoi(os.Getenv("SHUFFLE"))

func (k Key) mix() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%c/%d/%s", shuffle, k.kind, k.id, k.s)
	return h.Sum64()
}

func (k Key) less(o Key) bool {
	if shuffle != 0 {
		return k.mix() < o.mix()
	}
	if k.kind != o.kind {
		return k.kind < o.kind
	}
	if k.id != o.id {
		return k.id < o.id
	}
	return k.s < o.s
}

func envKeys(m map[Key]*Val) []Key {
	ks := make([]Key, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}

func keySet(m map[Key]bool) []Key {
	ks := make([]Key, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}

func sortedInts(m map[int]bool) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func sorted64(m map[int64]bool) []int64 {
	ks := make([]int64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func sortedIDs(m map[int]*Term) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func termKeys(m map[*Term]bool) []*Term {
	ts := make([]*Term, 0, len(m))
	for t := range m {
		ts = append(ts, t)
	}
	sortTerms(ts)
	return ts
}

func siteKeys() []*Term {
	ts := make([]*Term, 0, len(siteLoop))
	for t := range siteLoop {
		ts = append(ts, t)
	}
	sortTerms(ts)
	return ts
}

func termSet(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
