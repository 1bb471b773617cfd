"""Mutation campaign (development aid): small changes to the headers, kept when the library's own tests still pass,
then given to the scenario units that cover the file.  usage: mutate.py gen OUT.json [file...] | run OUT.json RESULT.json"""
import sys, os, re, subprocess, json, tempfile, shutil, random
from concurrent.futures import ThreadPoolExecutor
R = '/repo'
UNITS = {'core/ds/array/Vector.hpp': 'sc_vector', 'core/ds/array/Array.hpp': 'sc_misc', 'core/ds/string/BasicString.hpp': 'sc_string', 'core/ds/tree/AVLTree.hpp': 'sc_avl',
  'core/ds/tree/BinarySearchTree.hpp': 'sc_bst', 'core/ds/tree/BinarySearchTreeBase.hpp': 'sc_bst', 'core/ds/tree/tree-base.hpp': 'sc_bst,sc_avl', 'core/ds/tree/BinaryTree.hpp': 'sc_bst',
  'core/ds/tree/EmbeddedBinaryTree.hpp': 'sc_bst,sc_avl', 'core/ds/linked-list/EmbeddedList.hpp': 'sc_link,sc_list', 'core/ds/linked-list/DoublyLinkedList.hpp': 'sc_list', 'core/ds/linked-list/SinglyLinkedList.hpp': 'sc_list',
  'core/ds/linked-list/LinkedList.hpp': 'sc_list', 'core/ds/queue/DoubleEndedQueue.hpp': 'sc_deque,sc_dqcap', 'core/ds/queue/Queue.hpp': 'sc_deque,sc_misc', 'core/ds/Heap.hpp': 'sc_heap', 'core/ds/stack/Stack.hpp': 'sc_misc,sc_xvs',
  'core/ds/stack/XValueStack.hpp': 'sc_xvs', 'core/ds/Map.hpp': 'sc_map', 'core/ds/set/DisjointSet.hpp': 'sc_ufset', 'core/utils.hpp': 'sc_misc,sc_heap', 'core/Iterator.hpp': 'sc_vector,sc_list,sc_bst',
  'core/algorithm.hpp': 'sc_misc', 'core/common.hpp': 'sc_misc,sc_vector', 'memory/StaticMemAllocator.hpp': 'sc_sma', 'port/static-memory/sma-dstruct-port.hpp': 'sc_sma', 'spec/DStructSpec.hpp': 'sc_misc'}
OPS = [(r'(?<![<>=!\-])<(?![<=])(?=\s)', '<='), (r'(?<=\s)>(?![>=])(?=\s)', '>='), (r'<=', '<'), (r'(?<![->])>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
  (r'\+ 1\b', '+ 2'), (r'\+ 1\b', '+ 0'), (r'- 1\b', '- 0'), (r'\+\+', '--'), (r'--(?!-)', '++'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=[ (])!(?=\w)', ''),
  (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'\bprev\b', 'next'), (r'\bnext\b', 'prev'), (r'\bsrc\b', 'dst'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* 2', ' * 1'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\bnullptr\b', None)]
def muts(f):
    src = open(R + '/' + f).read().split('\n'); out = []
    for i, l in enumerate(src):
        t = l.strip()
        if not t or t.startswith(('//', '#', '*', 'template', 'using', 'namespace', '/*', 'struct', 'class', 'static_assert')): continue
        code = l.split('//')[0]
        for p, r in OPS:
            if r is None: continue
            for m in re.finditer(p, code): out.append((f, i, code[:m.start()] + r + code[m.end():]))
        if t.endswith(';') and not re.match(r'(return|auto|int|bool|const|typename|using|T |char|void|break|continue|\w+\s*\*?\s*\w+;|friend)', t) and t.count('(') == t.count(')') and '{' not in t: out.append((f, i, ' ;'))
        m = re.match(r'(\s*)(if|while) \((.*)\) \{?$', code.rstrip())
        if m and m.group(2) == 'if':
            for v in ('true', 'false'): out.append((f, i, code.replace('(' + m.group(3) + ')', '(' + v + ')', 1)))
    return out
FL = ['g++', '-std=c++11', '-w', '-g', '-O0']
TESTS = None
def targets():
    x = open(R + '/xmake.lua').read(); x = re.sub(r'--\[\[.*?--\]\]', '', x, flags=re.S)
    return re.findall(r'add_files\("(.*?)"\)', x)
def survive(m):
    f, i, new = m; d = tempfile.mkdtemp(prefix='mt.', dir='/tmp')
    try:
        for x in ('core', 'spec', 'memory', 'port', 'tests', 'examples'): shutil.copytree(R + '/' + x, d + '/' + x)
        for x in ('dstruct.hpp', 'dstruct-static.hpp'): shutil.copy(R + '/' + x, d)
        s = open(d + '/' + f).read().split('\n'); s[i] = new; open(d + '/' + f, 'w').write('\n'.join(s))
        def one(t):
            o = d + '/' + t.replace('/', '_') + '.x'
            if subprocess.run(FL + ['-I' + d, '-I' + d + '/tests', d + '/' + t, '-o', o], capture_output=True).returncode: return 'build'
            try: return 'ok' if subprocess.run([o], capture_output=True, timeout=10, cwd=d, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0))).returncode == 0 else 'test'
            except subprocess.TimeoutExpired: return 'test'
        for t in TESTS:
            r = one(t)
            if r != 'ok': return m, r
        return m, 'survives'
    finally: shutil.rmtree(d)
def main():
    global TESTS
    TESTS = targets()
    if sys.argv[1] == 'gen':
        fs = sys.argv[3:] or sorted(UNITS); ms = []
        for f in fs: ms += muts(f)
        n = int(os.environ.get('MAX', '0')); random.seed(int(os.environ.get('SEED', '1')))
        if n and len(ms) > n: ms = random.sample(ms, n)
        res = []; cnt = {}
        with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
            for m, r in ex.map(survive, ms):
                cnt[r] = cnt.get(r, 0) + 1
                if r == 'survives': res.append(m)
        json.dump(res, open(sys.argv[2], 'w')); print(cnt)
    else:
        ms = json.load(open(sys.argv[2])); out = []
        try: out = json.load(open(sys.argv[3]))
        except Exception: pass
        seen = {tuple(x[:3]) for x in out}
        sh, of = map(int, os.environ.get('SHARD', '0/1').split('/'))
        for k0, (f, i, new) in enumerate(ms):
            if (f, i, new) in seen or k0 % of != sh: continue
            d = tempfile.mkdtemp(prefix='mr.', dir='/tmp'); r = d + '/repo'; shutil.copytree(R, r, ignore=shutil.ignore_patterns('build', '.git', '.xmake'))
            s = open(r + '/' + f).read().split('\n'); old = s[i]; s[i] = new; open(r + '/' + f, 'w').write('\n'.join(s)); v = []; k = ''
            for u in UNITS[f].split(','):
                o = subprocess.run(['python3', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'ai.py'), u + '.cpp'], env=dict(os.environ, DS_REPO=r, DS_BUDGET=os.environ.get('DS_BUDGET', '30'), DS_N='0', DS_FIRST='1'), capture_output=True, text=True)
                v += re.findall(r'^(t_\w+) .* VIOL$', o.stdout, re.M); k += ' CRASH' if 'CRASH' in o.stdout else ''; k += o.stderr[-200:]
                if v: break
            shutil.rmtree(d); out.append([f, i, new, old, v[:6], k]); json.dump(out, open(sys.argv[3], 'w'))
            print('CAUGHT' if v else 'MISSED', '%s:%d' % (f, i + 1), repr(old.strip()), '->', repr(new.strip()), v[:3], k, flush=True)
main()
