#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changes)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('Bounded by the generators and the number of cases; trusts the harness, clang, the sanitizers, protobuf and BoringSSL. '
          'All cases run on /repo built with AddressSanitizer and UBSan. ')
T = {
 'C01': ('randomised token forging against an independent signature verifier as oracle',
         'Accepting verdicts are re-derived from the bytes with a harness-side verifier (own RSA/ECDSA/HMAC/Ed25519 drivers over the crypto library). Does not claim that ECDSA (r, n-s) or other PSS salt lengths are rejected.'),
 'C02': ('randomised round trip sign then verify over all algorithms, key forms and key-set layouts',
         'Signatures come from harness-held private keys, including keys and signatures with leading zero bytes.'),
 'C03': ('model-based generation of key sets; verdict and failure class from a reference model; metamorphic reordering and addition of keys',
         'Reference model of eligibility and failure classes written from RFC 7517 and the headers.'),
 'C04': ('randomised and boundary-value differential against exact integer arithmetic in 128 bits', 'Values drawn around every limit of the 64-bit range.'),
 'C05': ('randomised differential against a reference matcher; metamorphic permutations', 'URL-like strings built from pieces that the rule treats specially.'),
 'C06': ('randomised conjunction of constraints against a reference model under a virtual clock', 'time() and the clock calls are interposed in the check, so that the calls without time are decided exactly.'),
 'C07': ('structured generation of well-formed tokens, round trip through parsing', 'Documents nested at most 8 deep; base64 leniency is not claimed.'),
 'C08': ('fault-seeding generation: valid tokens with one or more faults of known rank, against the ranking as oracle', 'Every fault kind of every section, alone and combined.'),
 'C09': ('stateful generation of histories of parses, copies and assignments against fresh objects', 'Equality over all public fields and verification results.'),
 'C10': ('structured generation of key sets with interleaved faulty entries against a list model', 'Key material compared with numbers the harness holds.'),
 'C11': ('fault-seeding generation of JWKs against an independent validator', 'Faults of every member, alone and combined; tiny RSA moduli are not claimed.'),
 'C12': ('metamorphic equivalence of PEM, X.509 and JWK forms of generated keys; fault seeding', 'Equivalence judged on tokens signed by the right and by other keys.'),
 'C13': ('coverage-guided fuzzing (libFuzzer) and structured random generation under ASan/UBSan with leak accounting and time limits', 'A case may take seconds of CPU before it counts as a hang; memory exhaustion is not claimed.'),
 'C14': ('randomised generation of nested structures and dotted names against a reference lookup', 'Covers 64-bit range edges, NaN and infinities.'),
 'C15': ('randomised concurrent and repeated schedules under ThreadSanitizer, differential against single-threaded results', 'Schedules are those the operating system produces with randomised start; data races are found by happens-before analysis and need not manifest.'),
 'C16': ('stateful model-based generation of cache histories against a reference model', 'Virtual clock; all steps of a history judged.'),
 'C17': ('stateful model-based generation of cache histories with pins; ownership oracle under ASan', 'Virtual clock; all steps of a history judged.'),
 'C18': ('stateful model-based generation of cache histories; sums recomputed by the harness', 'Virtual clock; all steps of a history judged.'),
 'C19': ('stateful generation of cache histories under a virtual clock against exact expiry rules', 'Clock going backwards and NaN limits are not claimed.'),
 'C20': ('stateful generation with a twin cache that is not observed (metamorphic) and a reference model', 'Virtual clock; all steps of a history judged.'),
 'C21': ('exhaustive-by-sampling generation of status pairs, foreign values and recording histories', 'Words a text must name are listed per status in the harness.'),
}
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique='property-based testing: ' + T[p][0] if p != 'C13' else T[p][0],
                       level='exploration', level_note=COMMON + T[p][1]))
m = dict(version=1, setup_cmd='python3 run.py --build', checks=checks, not_applicable=[],
         notes='One executable per property, built from /repo\'s working tree; failures are shrunk and written to build/replays/, and run.py --replay FILE runs them again. No hooks in /repo.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
