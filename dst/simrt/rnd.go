package simrt

import (
	"io"
	mrand "math/rand"
	rv2 "math/rand/v2"
	"time"
)

// Random numbers of the code under test: one PRNG per world.

func rnext() uint64 {
	if W == nil {
		noW.s += 1
		return noW.next()
	}
	if !W.rndInit {
		W.rndInit = true
		W.rnd = rng{uint64(W.Stream("rand").U32())*0x9e3779b97f4a7c15 + 77}
	}
	return W.rnd.next()
}

var noW rng

type src struct{}

func (src) Uint64() uint64 { return rnext() }
func (src) Int63() int64   { return int64(rnext() >> 1) }
func (src) Seed(int64)     {}

var r1 = mrand.New(src{})
var r2 = rv2.New(src{})

// math/rand
func RandInt() int                           { return r1.Int() }
func RandIntn(n int) int                     { return r1.Intn(n) }
func RandInt31() int32                       { return r1.Int31() }
func RandInt31n(n int32) int32               { return r1.Int31n(n) }
func RandInt63() int64                       { return r1.Int63() }
func RandInt63n(n int64) int64               { return r1.Int63n(n) }
func RandUint32() uint32                     { return r1.Uint32() }
func RandUint64() uint64                     { return r1.Uint64() }
func RandFloat32() float32                   { return r1.Float32() }
func RandFloat64() float64                   { return r1.Float64() }
func RandNormFloat64() float64               { return r1.NormFloat64() }
func RandExpFloat64() float64                { return r1.ExpFloat64() }
func RandPerm(n int) []int                   { return r1.Perm(n) }
func RandShuffle(n int, swap func(i, j int)) { r1.Shuffle(n, swap) }
func RandSeed(int64)                         {}
func RandRead(p []byte) (int, error)         { return CryptoRead(p) }

// math/rand/v2
func Rand2Int() int                           { return r2.Int() }
func Rand2IntN(n int) int                     { return r2.IntN(n) }
func Rand2Int32() int32                       { return r2.Int32() }
func Rand2Int32N(n int32) int32               { return r2.Int32N(n) }
func Rand2Int64() int64                       { return r2.Int64() }
func Rand2Int64N(n int64) int64               { return r2.Int64N(n) }
func Rand2Uint32() uint32                     { return r2.Uint32() }
func Rand2Uint32N(n uint32) uint32            { return r2.Uint32N(n) }
func Rand2Uint64() uint64                     { return r2.Uint64() }
func Rand2Uint64N(n uint64) uint64            { return r2.Uint64N(n) }
func Rand2UintN(n uint) uint                  { return r2.UintN(n) }
func Rand2Float32() float32                   { return r2.Float32() }
func Rand2Float64() float64                   { return r2.Float64() }
func Rand2NormFloat64() float64               { return r2.NormFloat64() }
func Rand2ExpFloat64() float64                { return r2.ExpFloat64() }
func Rand2Perm(n int) []int                   { return r2.Perm(n) }
func Rand2Shuffle(n int, swap func(i, j int)) { r2.Shuffle(n, swap) }

type rintType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func Rand2N[T rintType](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(r2.Uint64N(uint64(n)))
}

// CryptoErr, when set, makes crypto/rand fail.
var CryptoErr error

// CryptoRead is crypto/rand.Read.
func CryptoRead(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rnext() >> 24)
	}
	return len(p), nil
}

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) { return CryptoRead(p) }

var CryptoReader io.Reader = cryptoReader{}

// AddCleanup and SetFinalizer: the garbage collector is not part of the
// simulated schedule; cleanups run when the world ends.
type Cleanup struct{ stopped *bool }

func (c Cleanup) Stop() {
	if c.stopped != nil {
		*c.stopped = true
	}
}

func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	st := new(bool)
	if W != nil {
		W.cleanups = append(W.cleanups, func() {
			if !*st {
				*st = true
				cleanup(arg)
			}
		})
	}
	return Cleanup{st}
}

func SetFinalizer(obj any, f any) {}

func KeepAlive(any) {}

func sleepNothing(time.Duration) {}
