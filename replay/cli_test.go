package zzverif

import (
	"bytes"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
)

func setup(t *testing.T, args string) (string, bool) {
	t.Helper()
	bin := os.Getenv("SETUP_BIN")
	if bin == "" {
		t.Fatal("SETUP_BIN is not set")
	}
	out, err := exec.Command(bin, strings.Fields(args)...).CombinedOutput()
	s := string(out)
	if strings.Contains(s, "goroutine ") {
		t.Fatalf("'setup %s' panicked: %.300s", args, s)
	}
	return s, err == nil
}

// the command line: every command runs its operation on its arguments, in order,
// and a wrong number or range of arguments is refused before anything is written
func TestCLI(t *testing.T) {
	quiet(t)
	inDir(t)
	refuse := func(args string) {
		t.Helper()
		before, _ := os.ReadDir(".")
		if _, ok := setup(t, args); ok {
			t.Fatalf("'setup %s' reports success", args)
		}
		after, _ := os.ReadDir(".")
		if len(before) != len(after) {
			t.Fatalf("'setup %s' fails but leaves a file behind", args)
		}
	}
	accept := func(args string) {
		t.Helper()
		if s, ok := setup(t, args); !ok {
			t.Fatalf("'setup %s' fails: %s", args, s)
		}
	}
	// takes: the arguments are not refused: the operation begins with its output (and is ended there)
	takes := func(args, out string) {
		t.Helper()
		cmd := exec.Command(os.Getenv("SETUP_BIN"), strings.Fields(args)...)
		if err := cmd.Start(); err != nil {
			t.Fatal(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		for ended := false; ; {
			if _, err := os.Stat(out); err == nil {
				break
			}
			if ended {
				t.Fatalf("'setup %s' refuses valid arguments", args)
			}
			select {
			case <-done:
				ended = true
				done <- nil
			case <-time.After(2 * time.Millisecond):
			}
		}
		cmd.Process.Kill()
		<-done
		os.Remove(out)
	}
	for _, pw := range []string{"20", "25", "26"} {
		takes("p1n "+pw+" big.ph1", "big.ph1")
	}
	put(t, ".", "small.ppot", ppot(2, rndToxic()))
	for _, a := range []string{"28 28", "28 27", "28 1", "27 2", "26 26", "12 11", "1 1"} {
		takes("p1t small.ppot big.ph1 "+a, "big.ph1")
	}
	for _, pw := range []string{"0", "-1", "-254", "27", "28", "255", "256", "257", "258", "x", "1.5", "0x2"} {
		refuse("p1n -- " + pw + " a.ph1")
	}
	for _, cmd := range []string{"p1n", "p1c", "p1v", "p1t", "p1vt", "p2n", "p2np", "p2c", "p2v", "key", "keys", "sol"} {
		n := map[string]int{"p1n": 2, "p1c": 2, "p1v": 1, "p1t": 4, "p1vt": 2, "p2n": 3, "p2np": 6, "p2c": 2, "p2v": 2, "key": 1, "keys": 2, "sol": 1}[cmd]
		for k := 0; k <= n+2; k++ {
			if k != n {
				refuse(cmd + strings.Repeat(" 2", k))
			}
		}
	}
	// p1n
	for _, pw := range []string{"1", "2", "3"} {
		accept("p1n " + pw + " a.ph1")
		if err := phase1.Initialize(pw[0]-'0', "b.ph1"); err != nil {
			t.Fatal(err)
		}
		a, _ := os.ReadFile("a.ph1")
		b, _ := os.ReadFile("b.ph1")
		if !bytes.Equal(a, b) || len(a) == 0 {
			t.Fatalf("'setup p1n %s' does not write what phase1.Initialize writes", pw)
		}
	}
	// p1c, p1v, p1vt
	accept("p1n 4 0.ph1")
	z, _ := os.ReadFile("0.ph1")
	accept("p1c 0.ph1 1.ph1")
	if z2, _ := os.ReadFile("0.ph1"); !bytes.Equal(z, z2) {
		t.Fatal("p1c changed its input")
	}
	accept("p1c 1.ph1 2.ph1")
	if p := parse1(t, "2.ph1"); p.NC != 2 || p.Power != 4 {
		t.Fatalf("p1c twice: header %d %d", p.Power, p.NC)
	}
	accept("p1v 2.ph1")
	p := parse1(t, "2.ph1")
	q := p.clone()
	q.Alpha[2] = p1(rnd())
	put(t, ".", "bad.ph1", q.bytes())
	if _, ok := setup(t, "p1v bad.ph1"); ok {
		t.Fatal("p1v reports success on an invalid file")
	}
	// p1t
	tx := rndToxic()
	put(t, ".", "in.ppot", ppot(4, tx))
	accept("p1t in.ppot t.ph1 4 3")
	if b, _ := os.ReadFile("t.ph1"); !bytes.Equal(b, srs(3, tx).bytes()) {
		t.Fatal("'p1t in out 4 3' does not write the parameters of power 3")
	}
	accept("p1t in.ppot t4.ph1 4 4")
	accept("p1t in.ppot t1.ph1 4 1")
	for _, a := range []string{"3 4", "4 0", "29 3", "260 4", "4 -1", "4 -252", "300 260", "256 256", "x 3", "3 x", "99999999999999999999 3", "4 99999999999999999999", "4 -99999999999999999999"} {
		refuse("p1t -- in.ppot u.ph1 " + a)
	}
	accept("p1c t.ph1 t1.ph1")
	accept("p1vt t1.ph1 t.ph1")
	if _, ok := setup(t, "p1v t1.ph1"); ok {
		t.Fatal("p1v accepts a chain that does not start from the generators")
	}
	if _, ok := setup(t, "p1vt t1.ph1 0.ph1"); ok {
		t.Fatal("p1vt accepts a chain that does not start from the given file")
	}
	// phase 2
	c := circCases()[8]
	ccs := compile(t, c)
	f, _ := os.Create("c.r1cs")
	ccs.WriteTo(f)
	f.Close()
	put(t, ".", "in.ph1", srs(c.power, tx).bytes())
	r1 := ccs.(*cs_bn254.R1CS)
	accept("p2n in.ph1 c.r1cs 0.ph2")
	checkInit(t, "setup p2n", expected(r1, r1.Constraints, tx), tx, "0.ph2")
	a, _ := os.ReadFile("0.ph2")
	ev, _ := os.ReadFile("evals")
	nb, nr := ccs.GetNbConstraints(), ccs.GetNbR1C()
	c2 := compile(t, c)
	c2.SplitDumpBinary("S", 3)
	accept("p2np in.ph1 S p.ph2 " + itoa(nb) + " " + itoa(nr) + " 3")
	b, _ := os.ReadFile("p.ph2")
	ev2, _ := os.ReadFile("evals")
	if !bytes.Equal(a, b) || !bytes.Equal(ev, ev2) {
		t.Fatal("p2np differs from p2n")
	}
	var bads []string
	for _, x := range []string{"x", "1x", "99999999999999999999", "-99999999999999999999"} {
		for k := 0; k < 3; k++ {
			w := []string{itoa(nb), itoa(nr), "3"}
			w[k] = x
			bads = append(bads, strings.Join(w, " "))
		}
	}
	for _, bad := range append(bads, "x 1 1", "1 x 1", "1 1 x") {
		refuse("p2np in.ph1 S u.ph2 " + bad)
	}
	accept("p2c 0.ph2 1.ph2")
	accept("p2c 1.ph2 2.ph2")
	if n := parse2(t, "2.ph2").H.Contributions; n != 2 {
		t.Fatalf("p2c twice: %d contributions", n)
	}
	accept("p2v 2.ph2 0.ph2")
	if _, ok := setup(t, "p2v 0.ph2 2.ph2"); ok {
		t.Fatal("p2v with swapped arguments reports success")
	}
	accept("key 2.ph2")
	accept("keys 2.ph2 S")
	for _, o := range []string{"pk", "vk", "S.vk.save", "S.pk.E.save"} {
		if _, err := os.Stat(o); err != nil {
			t.Fatalf("key extraction did not write %s", o)
		}
	}
	accept("sol S")
	if b, err := os.ReadFile("S.sol"); err != nil || len(b) == 0 {
		t.Fatal("sol did not write S.sol")
	}
	for _, a := range []string{"p1c missing x.ph1", "p1v missing", "p1vt 2.ph1 missing", "p1t missing x.ph1 3 3", "p2n missing c.r1cs x.ph2", "p2c missing x.ph2", "p2v missing 0.ph2", "key missing", "keys missing S"} {
		if _, ok := setup(t, a); ok {
			t.Fatalf("'setup %s' reports success", a)
		}
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// the whole pipeline, with the tool's own files, ends in keys that prove and verify
func TestEndToEnd(t *testing.T) {
	quiet(t)
	inDir(t)
	must := func(what string, f func() error) {
		t.Helper()
		if err := guard(f); err != nil {
			t.Fatalf("%s: %v", what, err)
		}
	}
	c := e2eCirc{}
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), newBuilder, &c)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := os.Create("c.r1cs")
	ccs.WriteTo(f)
	f.Close()
	must("phase1.Initialize", func() error { return phase1.Initialize(4, "0.ph1") })
	must("phase1.Contribute", func() error { return phase1.Contribute("0.ph1", "1.ph1") })
	must("phase1.Contribute", func() error { return phase1.Contribute("1.ph1", "2.ph1") })
	must("phase1.Verify", func() error { return phase1.Verify("2.ph1", "") })
	must("phase2.Initialize", func() error { return phase2.Initialize("2.ph1", "c.r1cs", "0.ph2") })
	must("phase2.Contribute", func() error { return phase2.Contribute("0.ph2", "1.ph2") })
	must("phase2.Contribute", func() error { return phase2.Contribute("1.ph2", "2.ph2") })
	must("phase2.Verify", func() error { return phase2.Verify("2.ph2", "0.ph2") })
	must("keys.ExtractKeys", func() error { return keys.ExtractKeys("2.ph2") })
	must("keys.ExtractSplitKeys", func() error { return keys.ExtractSplitKeys("2.ph2", "S") })
	must("prove and verify", func() error {
		w, err := frontend.NewWitness(&e2eCirc{X: 3, Y: 35}, bn254.ID.ScalarField())
		if err != nil {
			return err
		}
		var pw witness.Witness = w
		pub, _ := pw.Public()
		pk := groth16.NewProvingKey(ecc.BN254)
		vk := groth16.NewVerifyingKey(ecc.BN254)
		b, _ := os.ReadFile("pk")
		if _, err := pk.ReadFrom(bytes.NewReader(b)); err != nil {
			return err
		}
		b, _ = os.ReadFile("vk")
		if _, err := vk.ReadFrom(bytes.NewReader(b)); err != nil {
			return err
		}
		cs := groth16.NewCS(ecc.BN254)
		b, _ = os.ReadFile("c.r1cs")
		if _, err := cs.ReadFrom(bytes.NewReader(b)); err != nil {
			return err
		}
		proof, err := groth16.Prove(cs, pk, w)
		if err != nil {
			return err
		}
		return groth16.Verify(proof, vk, pub)
	})
}

type e2eCirc struct {
	X frontend.Variable
	Y frontend.Variable `gnark:",public"`
}

func (c *e2eCirc) Define(api frontend.API) error {
	api.AssertIsEqual(c.Y, api.Add(api.Mul(c.X, c.X, c.X), c.X, 5))
	return nil
}
