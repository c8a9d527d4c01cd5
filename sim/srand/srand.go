// Package srand stands in for math/rand on the run's seed.
package srand

import (
	"math/rand"

	"verifsim/simrt"
)

type (
	Source = rand.Source
	Rand   = rand.Rand
)

func NewSource(seed int64) Source { return rand.NewSource(seed) }
func New(s Source) *Rand          { return rand.New(s) }
func Seed(int64)                  { simrt.SP(80) }
func Uint64() uint64              { simrt.SP(80); return simrt.RandU64() }
func Uint32() uint32              { return uint32(Uint64() >> 32) }
func Int63() int64                { return int64(Uint64() >> 1) }
func Int31() int32                { return int32(Int63() >> 32) }
func Int() int                    { return int(Int63()) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return Int63() % n
}
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Int63n(int64(n)))
}
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32 { return float32(Uint64()>>40) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
