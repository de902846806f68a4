package zzverif

import (
	"math/bits"
	"os"
	"sync"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

// ConvertG1/G2 must be the inverse DFT over the domain, for every power-of-two size
func TestLagrange(t *testing.T) {
	quiet(t)
	max := 8192
	if os.Getenv("VERIF_TIER") == "thorough" {
		max = 1 << 15
	}
	for n := 2; n <= max; n *= 2 {
		dom := fft.NewDomain(uint64(n))
		x := make([]fr.Element, n)
		a, b := make([]G1, n), make([]G2, n)
		for i := range x {
			x[i] = rnd()
			a[i] = p1(x[i])
			if n <= 256 {
				b[i] = p2(x[i])
			}
		}
		// inverse DFT by the definition for small sizes, by the dependency's FFT above
		y := make([]fr.Element, n)
		if n <= 256 {
			ni := inv(num(uint64(n)))
			wi := inv(dom.Generator)
			for i := range y {
				w, acc := pow(wi, i), one()
				var s fr.Element
				for j := range x {
					s = add(s, mul(acc, x[j]))
					acc = mul(acc, w)
				}
				y[i] = mul(s, ni)
			}
		} else {
			copy(y, x)
			dom.FFTInverse(y, fft.DIF)
			fft.BitReverse(y)
		}
		if err := guard(func() error { lagrange.ConvertG1(a, dom); return nil }); err != nil {
			t.Fatalf("lagrange.ConvertG1 on %d points: %v", n, err)
		}
		for i := range y {
			w := p1(y[i])
			if !a[i].Equal(&w) {
				t.Fatalf("lagrange.ConvertG1 on %d points: entry %d is not the inverse DFT", n, i)
			}
		}
		if n <= 256 {
			if err := guard(func() error { lagrange.ConvertG2(b, dom); return nil }); err != nil {
				t.Fatalf("lagrange.ConvertG2 on %d points: %v", n, err)
			}
			for i := range y {
				w := p2(y[i])
				if !b[i].Equal(&w) {
					t.Fatalf("lagrange.ConvertG2 on %d points: entry %d is not the inverse DFT", n, i)
				}
			}
		}
	}
}

// every schedule gives the same result: small domains again and again, where the parallel part is all there is
func TestLagrangeRepeat(t *testing.T) {
	quiet(t)
	for n := 4; n <= 128; n *= 2 {
		dom := fft.NewDomain(uint64(n))
		x := make([]fr.Element, n)
		a0, b0 := make([]G1, n), make([]G2, n)
		for i := range x {
			x[i] = rnd()
			a0[i], b0[i] = p1(x[i]), p2(x[i])
		}
		dom.FFTInverse(x, fft.DIF)
		fft.BitReverse(x)
		w1, w2 := make([]G1, n), make([]G2, n)
		for i := range x {
			w1[i], w2[i] = p1(x[i]), p2(x[i])
		}
		for k := 0; k < 4000/n; k++ {
			a, b := append([]G1{}, a0...), append([]G2{}, b0...)
			if err := guard(func() error { lagrange.ConvertG1(a, dom); lagrange.ConvertG2(b, dom); return nil }); err != nil {
				t.Fatalf("conversion of %d points: %v", n, err)
			}
			for i := range w1 {
				if !a[i].Equal(&w1[i]) || !b[i].Equal(&w2[i]) {
					t.Fatalf("conversion of %d points, run %d: entry %d is not the inverse DFT", n, k, i)
				}
			}
		}
	}
}

func TestBitReverse(t *testing.T) {
	for n := 1; n <= 1024; n *= 2 {
		lg := bits.TrailingZeros(uint(n))
		a, b := make([]G1, n), make([]G2, n)
		for i := range a {
			a[i].X.SetUint64(uint64(i + 7))
			b[i].X.A0.SetUint64(uint64(i + 7))
		}
		if err := guard(func() error { common.BitReverseG1(a); common.BitReverseG2(b); return nil }); err != nil {
			t.Fatalf("BitReverse on %d points: %v", n, err)
		}
		for i := range a {
			j := 0
			if lg > 0 {
				j = int(bits.Reverse64(uint64(i)) >> (64 - lg))
			}
			var w, w2 G1
			w.X.SetUint64(uint64(j + 7))
			w2 = w
			if !a[i].X.Equal(&w.X) {
				t.Fatalf("common.BitReverseG1 on %d points: entry %d is not the entry of the reversed index", n, i)
			}
			if !b[i].X.A0.Equal(&w2.X) {
				t.Fatalf("common.BitReverseG2 on %d points: entry %d is not the entry of the reversed index", n, i)
			}
		}
	}
}

// Parallelize calls work on disjoint ranges that cover [0,n) exactly, and returns only after all of them finished
func TestParallelize(t *testing.T) {
	for n := 0; n <= 130; n++ {
		var counts []int
		for cpus := 0; cpus <= 20; cpus++ {
			counts = append(counts, cpus)
		}
		for _, cpus := range append(counts, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 256, 1000) {
			cnt := make([]int, n)
			var mu sync.Mutex
			bad := ""
			work := func(s, e int) {
				mu.Lock()
				defer mu.Unlock()
				if s < 0 || e > n || s > e {
					bad = "range out of bounds"
					return
				}
				for i := s; i < e; i++ {
					cnt[i]++
				}
			}
			err := guard(func() error {
				if cpus == 0 {
					common.Parallelize(n, work)
				} else {
					common.Parallelize(n, work, cpus)
				}
				return nil
			})
			mu.Lock()
			if err != nil || bad != "" {
				t.Fatalf("common.Parallelize(%d, maxCpus=%d): %v %s", n, cpus, err, bad)
			}
			for i := range cnt {
				if cnt[i] != 1 {
					t.Fatalf("common.Parallelize(%d, maxCpus=%d): index %d processed %d times", n, cpus, i, cnt[i])
				}
			}
			mu.Unlock()
		}
	}
}

func TestSameRatio(t *testing.T) {
	for k := 0; k < 4; k++ {
		a, b, c := rnd(), rnd(), rnd()
		// e(a,b) = e(c, ab/c)
		d := mul(mul(a, b), inv(c))
		if !common.SameRatio(p1(a), p1(c), p2(b), p2(d)) {
			t.Fatalf("common.SameRatio false on equal pairings")
		}
		if common.SameRatio(p1(a), p1(c), p2(b), p2(rnd())) || common.SameRatio(p1(a), p1(rnd()), p2(b), p2(d)) {
			t.Fatalf("common.SameRatio true on different pairings")
		}
	}
	v := []fr.Element{{}, one(), sub(fr.Element{}, one()), rnd(), rnd()}
	for k := 0; k < 5*5*5*5; k++ {
		a, b, c, d := v[k%5], v[k/5%5], v[k/25%5], v[k/125]
		ab, cd := mul(a, b), mul(c, d)
		if common.SameRatio(p1(a), p1(c), p2(b), p2(d)) != ab.Equal(&cd) {
			t.Fatalf("common.SameRatio wrong for the exponents %d %d %d %d of {0,1,-1,r,s}", k%5, k/5%5, k/25%5, k/125)
		}
	}
	for dst := byte(1); dst < 4; dst++ {
		for _, ch := range [][]byte{nil, []byte("0123456789abcdef0123456789abcdef")} {
			x := rnd()
			pk := common.GenPublicKey(x, ch, dst)
			sp := common.GenSP(pk.S, pk.SX, ch, dst)
			want := spOf(pk.S, pk.SX, ch, dst)
			if !sp.Equal(&want) {
				t.Fatalf("common.GenSP is not the hash of (S, SX, challenge) under the domain tag")
			}
			sx := m1(pk.S, x)
			spx := m2(want, x)
			if pk.S.IsInfinity() || !pk.SX.Equal(&sx) || !pk.SPX.Equal(&spx) {
				t.Fatalf("common.GenPublicKey: SX or SPX is not x times S, SP")
			}
			q := common.GenPublicKey(x, ch, dst)
			if q.S.Equal(&pk.S) {
				t.Fatalf("common.GenPublicKey reuses its blinding point")
			}
		}
	}
}
