"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'LLVM-IR contract verifier (llvc): weakest-precondition style symbolic execution of the compiled C, all paths, SMT-discharged'
B = 'Smalltalk contract verifier (stvc): symbolic execution of the kernel methods with loop invariants, SMT-discharged'
CLAIMS = {
    'C01': (A, 'Every path of the accessors and primitives, for symbolic objects of each of the 13 shapes, any size, any fixed part, any index; trusts clang -O0 IR, z3/cvc5, the heap layout model of llvc/gst.py and the contracts of the boxed-value allocators.'),
    'C02': (A, 'All pairs of operands of the 17 primitives and the 16 special-send bytecodes (with the compare-and-branch and compare-and-dup look-ahead), run through the real interpreter function; division obligations are decided over the integers. Float operands are outside the contract.'),
    'C03': (A, 'Every class shape and every size: instantiation (plain and indexed), shallowCopy and the object allocator, run with any contents of the memory handed out; all paths, loops summarised without a bound. Trusted: the contracts of _gst_scavenge, _gst_mem_alloc and alloc_oop, that a failed allocation ends the process, and that objects are smaller than 2^31 bytes (the real VM cannot allocate larger ones).'),
    'C04': (A, 'The conversions of call-out arguments and results, CObject accesses and string conversions, for every value of each C type and every class of Smalltalk argument. Trusted: the libffi ABI, the class test is_a_kind_of, x87 rounding (left uninterpreted). Not under contract: _gst_invoke_croutine itself, push_smalltalk_obj for closures and structures. Storing an integer out of range of a short or char is not judged.'),
    'C06': (A, 'Every path of the queue and scheduler functions of interp.c (insert, remove, wait, signal, resume, suspend, yield, terminate, choice of the next process), for queues of any length and shape that is well-formed; a concrete driver replays random process programs on the built VM.'),
    'C07': (A, 'Every path of symbol interning, the symbol table, and the VM-side dictionaries (lookup, insertion, growth), for any table contents and any number of loop iterations (loops by invariant); the pigeonhole step (a table whose tally is below its size has an empty slot) and clang -O0, allocator contract and non-overlap of objects are trusted; partial correctness'),
    'C08': (A, 'The block functions of MD5 and SHA-1 against RFC 1321 and FIPS 180-1 for every block and chaining value, the buffering of partial blocks for any split and alignment, the padding and the length, for inputs below 2^31 bytes per update. Equality of the unrolled rounds is decided by a normal form of sums and bitwise operations (llvc/bitnorm.py) instead of the solver.'),
    'C10': (B, 'Every method of OrderedCollection named in props/c10.py from an arbitrary representation (any firstIndex, lastIndex, capacity, contents), all paths, loops summarised without a bound; callers use the contracts of basicAt:, basicAt:put:, replaceFrom:to:with:startingAt: and become:; a bounded driver replays operation sequences on the real VM.'),
    'C12': (B, 'Intervals over all Integers first, last and step (steps 1, -1, any positive, any negative), all loops summarised without a bound; a bounded driver checks all intervals with small bounds and some at the SmallInteger limits on the real VM.'),
}
NA = {}
DEFAULT_NA = 'No check of this property is finished yet.'


def main():
    props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            t, note = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='bin/check ' + i,
                               evidence_file='evidence/%s.json' % i, technique='contract-based deductive verification: ' + t,
                               level='proof', level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, DEFAULT_NA)))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='See DESIGN.md. No hooks are compiled into the code under test; checks read /repo\'s sources directly.')
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)


main()
