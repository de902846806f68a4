import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Phase 1 initialisation writes the complete neutral SRS',
 'For every supported power p (N = 2^p), initialising phase 1 and reporting success leaves a file holding power p, zero contributions, and then exactly 2N-1 + N + N copies of the G1 generator, N copies of the G2 generator and one more G2 generator, all compressed, and nothing else. Nothing but an I/O failure makes it fail.',
 ['inputs'],'every power 1..28 and every output path','The end-to-end test runs one power (9); file length and content at other powers, and at batch boundaries, are never looked at.',
 ['phase1/phase1.go','phase1/header.go'],[('Initialize','phase1/phase1.go'),('Header.writeTo','phase1/header.go')],['output file of p1n'])
p('C02','A phase 1 contribution multiplies every parameter by the right power',
 'If a phase 1 contribution reports success, there are fresh random tau, alpha, beta such that point i of the tau G1, alpha G1, beta G1 and tau G2 sections of the output equals point i of the same section of the input times tau^i, alpha*tau^i, beta*tau^i and tau^i, the beta G2 point is multiplied by beta, and the sections keep their length, order and encoding. This holds at every index, including those at and beyond internal batch boundaries.',
 ['inputs'],'every well formed input file of every power, every random choice, every number of CPUs','Tests use power 9, so that no section ever reaches the 2^20 batch size: the second batch is never executed; and no test looks at the points.',
 ['phase1/phase1.go','phase1/utils.go','common/parallelize.go'],[('Contribute','phase1/phase1.go'),('scaleG1/scaleG2','phase1/utils.go'),('powers','phase1/utils.go')],['output file of p1c'])
p('C03','A phase 1 contribution keeps the history and appends its own record',
 'If a phase 1 contribution reports success, the output counts one more contribution than the input, holds all earlier records unchanged and in order, and ends with one new record. The new record carries the first updated tau, alpha and beta points of the output, proofs of knowledge of the same tau, alpha, beta bound to the hash of the previous record (nothing, for the first) with tags 1, 2, 3, and the SHA-256 of all its other fields; the counter never wraps.',
 ['inputs','histories'],'every number of existing contributions 0..65535 and every content of their records','Tests make at most a few contributions and check only that the tool accepts its own output.',
 ['phase1/phase1.go','phase1/contribution.go','common/keypair.go'],[('Contribute','phase1/phase1.go'),('GenPublicKey/GenSP','common/keypair.go')],['output file of p1c'])
p('C04','Phase 1 verification accepts only a consistent SRS',
 'If phase 1 verification accepts a file then (except with the negligible probability of guessing random field elements) for one tau, alpha, beta its sections are the powers of tau from 0 to 2N-2 in G1, alpha and beta times the powers of tau from 0 to N-1 in G1, the powers of tau from 0 to N-1 in G2 and beta in G2, where tau, alpha, beta are those of the last contribution record. Every single point of every section takes part, whatever the size of the section.',
 ['inputs'],'every file, of every power, that a dishonest contributor may hand in','A test can feed a few corrupted files; there are as many ways to be inconsistent as there are pairs of points, and beyond 2^20 points the code takes a path no test takes.',
 ['phase1/phase1.go','phase1/utils.go','common/utils.go'],[('Verify','phase1/phase1.go'),('linearCombinationG1/G2','phase1/utils.go'),('SameRatio','common/utils.go')],['exit status of p1v / p1vt'])
p('C05','Phase 1 verification accepts only an unbroken chain of contributions',
 'If phase 1 verification accepts, the file has at least one contribution and every record, in order, proves knowledge of tau, alpha, beta against a challenge bound to the previous record, has no public key at infinity, updates the previous parameters (those of the start point for the first) in G1 and G2 by exactly these tau, alpha, beta, and has the hash of its own content. The start point is the generators, or the parameters of the given transformed file.',
 ['inputs','histories'],'every sequence of records of any length, honest or forged','Tests verify honest chains only.',
 ['phase1/phase1.go','phase1/utils.go','phase1/contribution.go'],[('Verify','phase1/phase1.go'),('verifyContribution','phase1/utils.go'),('defaultContribution','phase1/contribution.go')],['exit status of p1v / p1vt'])
p('C06','Phase 1 verification accepts every honest ceremony',
 'Phase 1 verification accepts every file made by initialisation (or by transforming a valid ceremony, verified against that transformed file) followed by one or more honest contributions, whatever the power, the number of contributions and the random choices, unless an I/O operation fails.',
 ['inputs','histories'],'every power, every number of contributions, every random choice','Tests run one ceremony of one power.',
 ['phase1/phase1.go','phase1/utils.go'],[('Verify','phase1/phase1.go'),('Contribute','phase1/phase1.go')],['exit status of p1v / p1vt'])
p('C07','Transforming a ceremony file keeps the first powers of every section',
 'For powers out <= in, transforming an uncompressed Powers of Tau file of power in that reports success writes power out, zero contributions, and then, compressed and in order, the first 2M-1 tau G1, M alpha G1, M beta G1 and M tau G2 points (M = 2^out) and the beta G2 point of the input, each taken from its own section. Nothing but an I/O failure makes it fail on a well formed file.',
 ['inputs'],'every pair of powers out <= in, every input file','The test of this needs a multi-gigabyte input that is not there, and compares nothing.',
 ['phase1/phase1.go','phase1/utils.go'],[('Transform','phase1/phase1.go'),('transformG1/transformG2','phase1/utils.go')],['output file of p1t'])
p('C08','Phase 2 initialisation derives the circuit dimensions correctly',
 'If phase 2 initialisation succeeds, the written header has the number of constraints, wires, public and private wires and privately committed wires of the circuit (the commitment wire counted as public), the smallest power of two, at least 2, that holds the constraints as domain, and zero contributions. A circuit with more constraints than the phase 1 parameters support is refused, and nothing else is but I/O failures.',
 ['inputs'],'every circuit and every phase 1 power','Tests run two small circuits; sizes at the boundary between supported and unsupported, and circuits with commitments, are not reached.',
 ['phase2/utils.go','phase2/parted.go','phase2/header.go'],[('processHeader','phase2/utils.go'),('nextPowerofTwo','phase2/utils.go'),('processHeaderParted','phase2/parted.go')],['header of the phase 2 file'])
p('C09','Conversion to the Lagrange basis is the inverse DFT',
 'For every power-of-two size n, converting n points P[0..n-1] of G1 or of G2 replaces point j by (1/n) * sum over i of w^(-ij) P[i], w being the generator of the domain, for any number of CPUs and any schedule. The bit reversal permutations it rests on exchange index i with the reversal of i, each exactly once.',
 ['inputs','schedules','configurations'],'every power-of-two size, every content, every CPU count and schedule','No test calls the conversion directly; which code path runs depends on the size (8-point kernel, parallel butterflies) and on the number of CPUs.',
 ['lagrange/g1.go','lagrange/g2.go','common/utils.go'],[('ConvertG1/ConvertG2','lagrange/'),('BitReverseG1/G2','common/utils.go')],['result of the conversion'])
p('C10','Phase 2 initialisation evaluates A and B of every wire correctly',
 'If phase 2 initialisation succeeds, the evaluations file starts with alpha G1, beta G1 and beta G2 of the phase 1 file and then has, for every wire, the sum over all constraints of the coefficient of the wire in the left (A) and right (B) side times the Lagrange point of the constraint, in G1 for A, and in G1 and in G2 for B.',
 ['inputs'],'every circuit (any constraints, any coefficients including 0, 1, 2 and -1) and every valid phase 1 file','Tests use two fixed circuits, with few of the special coefficients, and look only at whether one proof verifies.',
 ['phase2/utils.go','phase2/lagrange.go'],[('processEvaluations','phase2/utils.go'),('accumulateG1/G2','phase2/utils.go'),('lagrangeG1/G2','phase2/lagrange.go')],['evals file'])
p('C11','Phase 2 initialisation puts every wire in its one section',
 'If phase 2 initialisation succeeds, wire w contributes the point beta*A_w(tau) + alpha*B_w(tau) + C_w(tau): to the verifying section if it is public or the commitment, to the commitment section if it is privately committed, and to the proving section otherwise. Every wire appears exactly once, in increasing order within its section, and the commitment info of the circuit follows the verifying and commitment sections.',
 ['inputs'],'every circuit: any numbers of public, private, committed wires, any position of the commitment','Tests have no circuit with a commitment, and few public wires.',
 ['phase2/utils.go'],[('processPVCKK','phase2/utils.go'),('filterL','phase2/utils.go')],['phase 2 file','evals file'])
p('C12','Phase 2 initialisation starts from delta one and the right Z',
 'If phase 2 initialisation succeeds, the phase 2 file holds, right after its header, the generators of G1 and G2 as delta, then the n-1 points of Z, where Z at bit-reversed index i is the phase 1 tau G1 point i+n minus the point i (n the domain size), and then the proving section, and nothing else.',
 ['inputs'],'every domain size and every phase 1 file, of that power or larger','Tests look only at whether one proof verifies.',
 ['phase2/utils.go','common/utils.go'],[('processDeltaAndZ','phase2/utils.go'),('BitReverseG1','common/utils.go')],['phase 2 file'])
p('C13','Initialising from a parted circuit gives the same parameters',
 'For every circuit, initialising phase 2 from its parted form with the right number of constraints writes the same phase 2 file and the same evaluations file as initialising from the regular form.',
 ['inputs'],'every circuit, every way of splitting it','One circuit is tried in one split, and the two outputs are never compared.',
 ['phase2/parted.go','phase2/utils.go'],[('InitializeFromPartedR1CS','phase2/parted.go')],['phase 2 file','evals file'])
p('C14','A phase 2 contribution rescales by delta and extends the history',
 'If a phase 2 contribution reports success, there is a fresh random delta such that the output has both delta points of the input times delta, every point of the Z and proving sections times 1/delta, the header of the input with one more contribution, all earlier records unchanged and in order, and one new record. That record holds the new delta point, a proof of knowledge of delta bound to the hash of the previous record (nothing, for the first), and the SHA-256 of its other fields.',
 ['inputs','histories'],'every phase 2 file, of any domain size, witness size and number of contributions','Tests run circuits far below the 2^20 batch size and check only that the tool accepts its own output.',
 ['phase2/phase2.go','phase2/utils.go','phase2/contribution.go'],[('Contribute','phase2/phase2.go'),('scale','phase2/utils.go')],['output file of p2c'])
p('C15','Phase 2 verification accepts only honest updates of the origin',
 'If phase 2 verification accepts a file against an origin then (except with the negligible probability of guessing random field elements) both have the same dimensions, the delta points of the file are those of the origin times one same delta, every point of its Z and proving sections is that of the origin divided by delta, and there is at least one contribution. Every record, in order, has no public key at infinity, proves knowledge of its factor against a challenge bound to the previous record, updates the previous delta (the origin for the first) by it and carries its own hash, and the last delta is that of the file.',
 ['inputs','histories'],'every pair of files a dishonest contributor may hand in','Tests verify honest files only, far below the batch size.',
 ['phase2/phase2.go','phase2/utils.go'],[('Verify','phase2/phase2.go'),('aggregate','phase2/utils.go'),('verifyContribution','phase2/utils.go')],['exit status of p2v'])
p('C16','Phase 2 verification accepts every honest ceremony',
 'Phase 2 verification accepts every file that one or more honest contributions made from an origin, against that origin, whatever the dimensions, the number of contributions and the random choices, unless an I/O operation fails.',
 ['inputs','histories'],'every dimension, every number of contributions, every random choice','Tests run two ceremonies.',
 ['phase2/phase2.go','phase2/utils.go'],[('Verify','phase2/phase2.go')],['exit status of p2v'])
p('C17','The extracted proving key is the one the phase 2 parameters define',
 'If key extraction succeeds, the proving key file has, in the order its reader expects and compressed, the FFT domain, alpha, beta and delta in G1, the A and B points that are not at infinity, Z, the proving section, beta and delta in G2, the non-infinite B points in G2, the number of wires, the numbers of A and B points at infinity and the flags telling which ones.',
 ['inputs'],'every phase 2 file and evaluations file, any pattern of points at infinity','Tests extract keys of two circuits.',
 ['keys/keys.go'],[('extractPK','keys/keys.go'),('filterInfinityG1/G2','keys/keys.go')],['pk file'])
p('C18','Split extraction writes the same proving key in its parts',
 'If split key extraction succeeds, the six proving key parts hold, uncompressed, the same elements as the single proving key: domain size, alpha, beta, delta, beta and delta in G2, the wire counts and the infinity flags in the first, and A, B, Z, the proving section and B in G2 in one part each.',
 ['inputs'],'every phase 2 file and evaluations file, every session name','One circuit is tried.',
 ['keys/keys.go'],[('extractSplitPK','keys/keys.go')],['session.pk.*.save'])
p('C19','The extracted verifying key is the one the parameters define',
 'If key extraction (single or split) succeeds, the verifying key has alpha and beta of the evaluations, delta of the phase 2 file, the generator as gamma, the verifying section as K, a commitment key made from the commitment section, and the commitment info of the circuit. The split form also writes the same commitment key to its own file.',
 ['inputs'],'every phase 2 and evaluations file, any numbers of public and committed wires','Tests have no circuit with a commitment.',
 ['keys/keys.go'],[('extractVK/extractSplitVK','keys/keys.go'),('VerifyingKey.writeTo','keys/keys.go')],['vk file','session.vk.save','session.pk.CommitmentKey.save'])
p('C20','Records and headers survive a write and a read, and the hash binds them',
 'Reading back a written phase 1 or phase 2 header or contribution record gives the same value and uses exactly the bytes that were written, also when the source delivers them in pieces. The hash of a record is the SHA-256 of the encoding of every other field of the record, in writing order.',
 ['inputs'],'every header and record value, every way a reader may split its data','No test looks at a record; sources that deliver less than asked for are not tried.',
 ['phase1/contribution.go','phase1/header.go','phase2/contribution.go','phase2/header.go'],[('writeTo/ReadFrom/computeHash','phase1/contribution.go, phase2/contribution.go')],['bytes written'])
p('C21','Parallel execution covers every index exactly once',
 'For every number of iterations and every number of CPUs, running work in parallel splits the iterations into disjoint ranges that together cover each index exactly once, and returns only after every range has been processed. The work given to it never writes what another range reads or writes.',
 ['schedules','configurations','inputs'],'every number of iterations, every CPU count, every schedule','Tests run on the CPU count of the machine and on a few sizes, and not under every schedule.',
 ['common/parallelize.go','lagrange/g1.go','lagrange/g2.go','phase1/utils.go','phase2/utils.go'],[('Parallelize','common/parallelize.go'),('bit reversal and butterflies','lagrange/')],['arguments of the work function'])
p('C22','No I/O failure is reported as success',
 'Whenever a file operation of any command (opening, reading, seeking, writing, flushing, decoding) fails, also one on the last byte of the output, the command returns an error and never claims success.',
 ['fault_sequences','crash_points'],'every single operation of every command failing, at any iteration','No test makes an I/O operation fail.',
 ['phase1/','phase2/','keys/keys.go'],[('error returns and final flushes','all commands')],['exit status','output files'])
p('C23','Every command checks its arguments and passes them in documented order',
 'Each documented command accepts exactly its documented number of arguments and runs the operation it is documented for on those arguments in the documented order; numbers that are no integers, powers outside the supported range and transforms to a higher power are refused before any file is touched.',
 ['inputs'],'every argument list','No test runs the command line.',
 ['actions.go','main.go'],[('actions','actions.go'),('command table','main.go')],['exit status','files touched'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
