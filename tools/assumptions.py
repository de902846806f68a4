#!/usr/bin/env python3
"""Writes tools/assumptions.json: what every deductive check takes for granted, by property."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
COMMON = [
 "64-bit integers do not overflow (machine arithmetic is treated as mathematical; shifts, conversions to byte and uint16 are modelled with their wrap-around)",
 "partial correctness: termination of the verified loops is not proved",
 "distinct path arguments name distinct files, and nobody else changes them during the run",
 "contracts of external functions (listed as trusted_base) are assumed, not proved: bufio, os, io, gob, sha256, fmt, gnark-crypto's curve, field, encoder and decoder",
 "errors of Close are not counted as I/O failures",
]
RND = "random scalars drawn from the field's generator are non-zero, independent and unknown to whoever made the input"
BATCH = "batching lemma: a random linear combination that vanishes for an independent random choice of every coefficient vanishes term by term (Schwartz-Zippel)"
PAR = "a call of common.Parallelize(n, work) is replaced by its contract, the effect of work(0, n); that contract and the locality of the work are the obligations of C21"
POW = "a sequence whose consecutive ratios are tau and whose first element is known consists of the powers of tau (closing arithmetic step over the discharged obligations)"
PAIR = "bilinear, non-degenerate pairing; hash-to-curve and SHA-256 are uninterpreted functions"
SYS = "what gnark guarantees of a constraint system: wire and coefficient indices in range; the coefficient table starts with 0, 1, 2, -1, -2; committed wires are sorted with the private ones last and NbPrivateCommitted counts them; the commitment wire is the first one after the public ones; nothing is committed without a commitment"
LAG = "contracts of lagrange.ConvertG1/G2 and common.BitReverseG1/G2, which C09 decides"
PART = "gnark's loader of parted systems yields the circuit that was split, constraint by constraint, or panics"
MEM = "the Go memory model: a go statement happens before the goroutine, its Done, send or close before the matching Wait or receive; goroutines are run in place, which stands for every schedule under the checked conditions (what a goroutine writes is not touched by anything that runs at the same time, exactly one signal, at the end)"
FFT = "gnark's domain of n = 2^e points: Generator is a root of unity of order n (w^(n/2) = -1), CardinalityInv = 1/n, TwiddlesInv[t][i] = w^(-2^t i) for i < n/2^(t+1), one level for every halving; bits.Reverse64 as documented; sizes up to 2^28 (conversion) and 2^40 (recursion, bit reversal); induction on the size joins the recursive contract (each size is proved from the smaller one)"
CNT = "the filters of wires by section are counted by uninterpreted counting functions (monotone, stepping by one where the predicate holds)"
A = {
 'C01': [], 'C02': [RND, PAR], 'C03': [RND, PAR, PAIR], 'C04': [RND, PAR, PAIR, BATCH, POW], 'C05': [RND, PAR, PAIR, BATCH],
 'C06': [RND, PAR, PAIR], 'C07': [], 'C08': [SYS, PAR], 'C10': [SYS, PAR, LAG], 'C11': [SYS, PAR, LAG, CNT], 'C12': [SYS, PAR, LAG],
 'C13': [SYS, PAR, LAG, CNT, PART], 'C14': [RND, PAR, PAIR], 'C15': [RND, PAR, PAIR, BATCH], 'C16': [RND, PAR, PAIR], 'C17': [CNT], 'C18': [CNT],
 'C19': [], 'C20': [PAIR], 'C21': [MEM, RND, SYS, FFT],
 'C22': [SYS, PART, LAG, PAR, "reading a file that could not be opened fails"], 'C23': ["urfave/cli hands the action the arguments after its flags, in order"],
 'C09': [FFT, PAR, MEM],
}
json.dump({p: COMMON + v for p, v in A.items()}, open(H + '/assumptions.json', 'w'), indent=1)
