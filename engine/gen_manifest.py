"""writes MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
    'C24': 'The property quantifies over programs that must be rejected by the compiler: there is no run of the code, hence '
           'nothing to encode symbolically. Only a compile-fail test (one sample, another technique) could look at it.',
    'C25': 'Send/Sync are decided by the type checker for each instantiation; they leave no trace in the MIR or LLVM IR that '
           'a solver could reason about. A static assertion would be another technique.',
}
NOTE = {
    'C22': ' The block leaks listed in known_findings.txt are reported as KNOWN-FINDING.',
    'C23': ' Bound: two boxes, sequences of 1 and 2 operations (thorough: 3), 8 kinds of operation.',
    'C15': ' Bound: the enums, format traits and option combinations of harness/src/c15.rs, output up to its buffer size.',
    'C16': ' Bound: all addresses unpadded; padded output for the address classes and paddings of harness/src/c16.rs.',
    'C13': ' Bound: pairs (triples for transitivity) of values of the enums in harness/src/c13.rs.',
}
checks = [dict(
    property=p,
    quick_cmd='python3-vt engine/check.py %s' % p,
    thorough_cmd='python3-vt engine/check.py %s thorough' % p,
    technique='bounded symbolic execution of the LLVM IR of the real crate (engine/irsym), assertions decided by z3 '
              '(bit-vectors); counterexamples and path witnesses replayed against the real build',
    level='model_checking',
    level_note='Decided for every value of the symbolic inputs and every allocator address, on every path, for the '
               'instantiated types, enums and operation shapes of harness/src/%s*.rs and the listed width/profile '
               'configurations. Trusts rustc front end, the IR semantics in engine/irsym.py, and z3.%s' % (p.lower(), NOTE.get(p, '')))
    for p in props if p not in NA]
m = dict(version=1, setup_cmd='python3-vt engine/check.py --setup', checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes='No hooks in /repo. See DESIGN.md; known_findings.txt lists recorded and repaired defects.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
