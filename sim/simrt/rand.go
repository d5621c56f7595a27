package simrt

import (
	"io"
	"math/big"
	"math/rand"
)

type src struct{}

func (src) Uint64() uint64  { return U64("rand") }
func (src) Int63() int64    { return int64(U64("rand") >> 1) }
func (src) Seed(seed int64) {}

var gr = rand.New(src{})

// math/rand top level functions.
func RandInt() int                           { return gr.Int() }
func RandIntn(n int) int                     { return gr.Intn(n) }
func RandInt31() int32                       { return gr.Int31() }
func RandInt31n(n int32) int32               { return gr.Int31n(n) }
func RandInt63() int64                       { return gr.Int63() }
func RandInt63n(n int64) int64               { return gr.Int63n(n) }
func RandUint32() uint32                     { return gr.Uint32() }
func RandUint64() uint64                     { return gr.Uint64() }
func RandFloat32() float32                   { return gr.Float32() }
func RandFloat64() float64                   { return gr.Float64() }
func RandNormFloat64() float64               { return gr.NormFloat64() }
func RandExpFloat64() float64                { return gr.ExpFloat64() }
func RandPerm(n int) []int                   { return gr.Perm(n) }
func RandShuffle(n int, swap func(i, j int)) { gr.Shuffle(n, swap) }
func RandSeed(int64)                         {}
func RandReadM(p []byte) (int, error)        { return RandRead(p) }
func RandIntN(n int) int                     { return gr.Intn(n) }
func RandN[T ~int | ~int64 | ~uint64](n T) T { return T(gr.Int63n(int64(n))) }

// RandRead is crypto/rand.Read.
func RandRead(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(U64("crand"))
	}
	return len(p), nil
}

type rr struct{}

func (rr) Read(p []byte) (int, error) { return RandRead(p) }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = rr{}

// RandBigInt is crypto/rand.Int.
func RandBigInt(_ io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Rand(gr, max), nil
}

// NumGoroutine of the current domain.
func NumGoroutine() int { return len(S.cur.dom.gs) }
