package zzverif

import (
	"fmt"
	"os"
	"os/signal"
	"strings"
	"syscall"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// limitFiles makes every write beyond n bytes of any regular file fail
func limitFiles(n uint64) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	l := old
	l.Cur = n
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

// Every operation whose output cannot be written in full must say so.  outs are the
// files it writes (relative to the scratch directory).
func ioCheck(t *testing.T, name string, outs []string, op func() error) {
	t.Helper()
	clean := func() {
		for _, o := range outs {
			os.Remove(o)
		}
	}
	clean()
	if err := guard(op); err != nil {
		t.Fatalf("%s: %v", name, err)
	}
	sizes := map[string]int64{}
	max := int64(0)
	for _, o := range outs {
		st, err := os.Stat(o)
		if err != nil {
			t.Fatalf("%s did not write %s", name, o)
		}
		sizes[o] = st.Size()
		if st.Size() > max {
			max = st.Size()
		}
	}
	// a full disk, from the first byte on, for one output at a time
	for _, o := range outs {
		clean()
		if err := os.Symlink("/dev/full", o); err != nil {
			t.Fatal(err)
		}
		err := guard(op)
		os.Remove(o)
		if err == nil {
			t.Fatalf("%s reports success although %s is on a full device", name, o)
		}
		if isPanic(err) {
			t.Fatalf("%s with %s on a full device: %v", name, o, err)
		}
	}
	// a disk that fills up at byte n
	for _, n := range []int64{0, 1, 2, 3, 4, 40, max / 4, max / 2, max - 700, max - 200, max - 65, max - 33, max - 5, max - 1} {
		if n < 0 || n >= max {
			continue
		}
		clean()
		restore := limitFiles(uint64(n))
		err := guard(op)
		restore()
		if err == nil {
			t.Fatalf("%s reports success although only %d of %d bytes of its output could be written", name, n, max)
		}
		if isPanic(err) {
			t.Fatalf("%s when only %d bytes can be written: %v", name, n, err)
		}
	}
	clean()
}

func TestIOPhase1(t *testing.T) {
	quiet(t)
	inDir(t)
	ioCheck(t, "phase1.Initialize(4)", []string{"o.ph1"}, func() error { return phase1.Initialize(4, "o.ph1") })
	p, _, _ := chain1(3, oneToxic(), 2)
	put(t, ".", "in.ph1", p.bytes())
	ioCheck(t, "phase1.Contribute", []string{"o.ph1"}, func() error { return phase1.Contribute("in.ph1", "o.ph1") })
	put(t, ".", "in.ppot", ppot(3, rndToxic()))
	ioCheck(t, "phase1.Transform", []string{"o.ph1"}, func() error { return phase1.Transform("in.ppot", "o.ph1", 3, 2) })
	for _, f := range []func() error{
		func() error { return phase1.Contribute("missing", "o.ph1") },
		func() error { return phase1.Transform("missing", "o.ph1", 3, 2) },
		func() error { return phase1.Verify("missing", "") },
		func() error { return phase1.Contribute("in.ph1", "no/such/dir") },
		func() error { return phase1.Initialize(2, "no/such/dir") },
	} {
		if err := guard(f); err == nil || isPanic(err) {
			t.Fatalf("a path that cannot be opened is not reported: %v", err)
		}
	}
	// truncated inputs
	b := p.bytes()
	for _, cut := range cuts(len(b), 3, 37) {
		put(t, ".", "cut.ph1", b[:len(b)-cut])
		if err := guard(func() error { return phase1.Contribute("cut.ph1", "o.ph1") }); err == nil || isPanic(err) {
			t.Fatalf("phase1.Contribute on an input truncated by %d bytes: %v", cut, err)
		}
		if err := guard(func() error { return phase1.Verify("cut.ph1", "") }); err == nil || isPanic(err) {
			t.Fatalf("phase1.Verify on an input truncated by %d bytes: %v", cut, err)
		}
	}
	b = ppot(3, rndToxic())
	for _, cut := range cuts(len(b), 0, 97) {
		put(t, ".", "cut.ppot", b[:len(b)-cut])
		if err := guard(func() error { return phase1.Transform("cut.ppot", "o.ph1", 3, 2) }); err == nil || isPanic(err) {
			t.Fatalf("phase1.Transform on an input truncated by %d bytes: %v", cut, err)
		}
	}
}

// cuts: how much to cut off a file of n bytes whose points start at position start: at every point and in between
func cuts(n, start, step int) (o []int) {
	for cut := 1; cut < n; cut++ {
		if cut%step == 1 || (n-cut-start)%64 == 0 || (n-cut-start)%32 == 0 && cut < 1000 {
			o = append(o, cut)
		}
	}
	return
}

func TestIOPhase2(t *testing.T) {
	quiet(t)
	inDir(t)
	c := circCases()[8]
	prepKeys(t, c)
	put(t, ".", "in.ph1", srs(c.power, rndToxic()).bytes())
	ioCheck(t, "phase2.Initialize", []string{"o.ph2", "evals", "srs.lag"}, func() error { return phase2.Initialize("in.ph1", "c.r1cs", "o.ph2") })
	o := origin2(8, 5)
	in, _, _ := chain2(o, 2)
	put(t, ".", "in.ph2", in.bytes())
	ioCheck(t, "phase2.Contribute", []string{"o.ph2"}, func() error { return phase2.Contribute("in.ph2", "o.ph2") })
	ccs := compile(t, c)
	n, r := ccs.GetNbConstraints(), ccs.GetNbR1C()
	ccs.SplitDumpBinary("S", 100)
	ioCheck(t, "phase2.InitializeFromPartedR1CS", []string{"o.ph2", "evals", "srs.lag"}, func() error { return phase2.InitializeFromPartedR1CS("in.ph1", "S", "o.ph2", n, r, 100) })
	b := in.bytes()
	hl := len(b) - (32 + 64 + 7*32 + 5*32 + 2*192)
	put(t, ".", "origin.ph2", o.bytes())
	for _, cut := range cuts(len(b), hl, 29) {
		put(t, ".", "cut.ph2", b[:len(b)-cut])
		if err := guard(func() error { return phase2.Contribute("cut.ph2", "o.ph2") }); err == nil || isPanic(err) {
			t.Fatalf("phase2.Contribute on an input truncated by %d bytes: %v", cut, err)
		}
		if err := guard(func() error { return phase2.Verify("cut.ph2", "origin.ph2") }); err == nil || isPanic(err) {
			t.Fatalf("phase2.Verify on an input truncated by %d bytes: %v", cut, err)
		}
	}
	p := srs(c.power, rndToxic()).bytes()
	for _, cut := range cuts(len(p), 3, 331) {
		if cut%64 != 0 && cut > 200 {
			continue
		}
		put(t, ".", "cut.ph1", p[:len(p)-cut])
		if err := guard(func() error { return phase2.Initialize("cut.ph1", "c.r1cs", "o.ph2") }); err == nil || isPanic(err) {
			t.Fatalf("phase2.Initialize on a phase 1 file truncated by %d bytes: %v", cut, err)
		}
	}
}

func TestIOKeys(t *testing.T) {
	quiet(t)
	inDir(t)
	prepKeys(t, circCases()[8])
	ioCheck(t, "keys.ExtractKeys", []string{"pk", "vk"}, func() error { return keys.ExtractKeys("last.ph2") })
	var outs []string
	for _, x := range strings.Fields("E A B1 Z K B2 CommitmentKey") {
		outs = append(outs, fmt.Sprintf("S.pk.%s.save", x))
	}
	ioCheck(t, "keys.ExtractSplitKeys", append(outs, "S.vk.save"), func() error { return keys.ExtractSplitKeys("last.ph2", "S") })
	for name, op := range map[string]func() error{
		"keys.ExtractKeys":      func() error { return keys.ExtractKeys("missing") },
		"keys.ExtractSplitKeys": func() error { return keys.ExtractSplitKeys("missing", "S") },
		"keys.ExportSol":        func() error { return keys.ExportSol("missing") },
	} {
		if err := guard(op); err == nil || isPanic(err) {
			t.Fatalf("%s of a file that cannot be opened: %v", name, err)
		}
	}
}
