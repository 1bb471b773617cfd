"""writes /verif/MANIFEST.json from the tables below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
RULE = {
 'C27': ('who-may-call rule over the IR call graph of the fully instantiated API', 'proof', 'Every call site of the API instantiated with a given allocator; trusts the clang front end. Storage typestate (which block goes back where) is C03.'),
 'C28': ('external-symbol and include-edge rule over the instantiated API', 'proof', 'Every external callee and every include edge of core/, spec/, memory/; trusts the clang front end.'),
 'C29': ('type-level witnesses (compile / must-not-compile) per container and expression', 'proof', 'Decided by the type checker for the listed containers and expressions; user casts are outside.'),
 'C30': ('type-level witnesses: the whole public API instantiated per memory model and element kind', 'proof', 'Decided by two front ends for the element kinds and memory models listed.'),
 'C36': ('effect analysis: no function outside the port layer writes or hands out mutable process-wide state', 'proof', 'Decides the absence of shared mutable state, the necessary and (with a thread-safe malloc) sufficient condition for independence of distinct containers.'),
}
import sys
sys.path.insert(0, V)
try:
    from tools.claims import AI, NA
except ImportError:
    AI, NA = {}, {}
checks = []
for i in ids:
    if i in RULE:
        t, l, n = RULE[i]; cmd = 'python3 checks/rules.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': t, 'level': l, 'level_note': n})
    elif i in AI:
        t, l, n = AI[i]; cmd = 'python3 checks/ai.py ' + i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough', 'technique': t, 'level': l, 'level_note': n})
na = [{'property': i, 'reason': NA.get(i, 'not claimed yet')} for i in ids if i not in RULE and i not in AI]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na, 'notes': 'Static analysis of the C++ headers through clang LLVM IR; see DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
