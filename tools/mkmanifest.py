#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '0-7'
B = lambda r, s='', c='': [r, s, c]
T = {
 'C01': ([B('TestP1Init$')], [B('TestP1InitLarge')]),
 'C02': ([B('TestP1Contribute')], [B('TestP1Contribute', '5'), B('TestP1Contribute', '', '0')]),
 'C03': ([B('TestP1Contribute|TestP1CounterWrap')], [B('TestP1Contribute', '5')]),
 'C04': ([B('TestP1VerifySound|TestSameRatio')], [B('TestP1VerifySound', '5'), B('TestP1VerifySound', '', '0')]),
 'C05': ([B('TestP1VerifySound|TestSameRatio')], [B('TestP1VerifySound', '5')]),
 'C06': ([B('TestP1VerifyComplete')], [B('TestP1VerifyComplete', '5'), B('TestP1VerifyComplete', '', '0,1,2')]),
 'C07': ([B('TestP1Transform')], [B('TestP1Transform', '5')]),
 'C08': ([B('TestP2Init$|TestP2Support')], [B('TestP2InitParted')]),
 'C09': ([B('TestLagrange|TestBitReverse')], [B('TestLagrange|TestBitReverse', '', '0'), B('TestLagrange|TestBitReverse', '', '0,1,2')]),
 'C10': ([B('TestP2Init$|TestP2InitParted')], [B('TestP2Support'), B('TestP2Init$', '5'), B('TestP2Init$', '', '0,1,2')]),
 'C11': ([B('TestP2Init$|TestP2InitParted')], [B('TestP2Support'), B('TestP2Init$', '5')]),
 'C12': ([B('TestP2Init$|TestP2InitParted')], [B('TestP2Init$', '5')]),
 'C13': ([B('TestP2InitParted')], [B('TestP2InitParted', '5')]),
 'C14': ([B('TestP2Contribute')], [B('TestP2Contribute', '5'), B('TestP2Contribute', '', '0')]),
 'C15': ([B('TestP2VerifySound|TestSameRatio')], [B('TestP2VerifySound', '5'), B('TestP2VerifySound', '', '0')]),
 'C16': ([B('TestP2VerifyComplete')], [B('TestP2VerifyComplete', '5')]),
 'C17': ([B('TestKeysPK')], []),
 'C18': ([B('TestKeysSplitPK')], []),
 'C19': ([B('TestKeysVK')], []),
 'C20': ([B('TestP1Codec|TestP1Contribute|TestP2Contribute')], []),
 'C21': ([B('TestParallelize|TestLagrangeRepeat')], [B('TestParallelize', '', '0'), B('TestParallelize', '', '0,1,2')]),
 'C22': ([B('TestIOPhase1|TestIOPhase2|TestIOKeys|TestKeysTruncated')], []),
 'C23': ([B('TestCLI')], []),
}
PROVED = set(json.load(open(H + '/tools/proved.json')))
tests = {}
checks = []
NOTE = json.load(open(H + '/tools/notes.json'))
for p, (q, m) in T.items():
    tests[p] = {'engine': p in PROVED, 'quick': q, 'more': m}
    checks.append({
        'property': p, 'quick_cmd': './check.sh ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p,
        'technique': 'contract-based deductive verification: VC generation over the SSA of the real functions, discharged by a term normaliser and z3' if p in PROVED else 'bounded stand-in: executable contract checked on the real code over enumerated inputs',
        'level': 'proof' if p in PROVED else 'exploration',
        'level_note': NOTE.get(p) or ('Every obligation generated from the current source is discharged for all inputs; library functions are trusted by the contracts listed in the evidence file.' if p in PROVED else 'Bounded: not proved; only the inputs of the replay tests.'),
    })
json.dump(tests, open(H + '/replay/tests.json', 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': []}, open(H + '/MANIFEST.json', 'w'), indent=1)
