"""second-order mutation operators (development aid; see mutate.py): narrow types, statics, swapped statements and arguments, other members, dropped branches.
A replacement that ends with NUL also blanks the following line."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutate.py')).read()
src = src[:src.rindex('main()')]
src = src.replace("s[i] = new; ", "s[i] = new.rstrip(chr(0)); s[i + 1] = '' if new.endswith(chr(0)) else s[i + 1]; ").replace("old = s[i]; s[i] = new.rstrip", "old = s[i]; s[i] = new.rstrip")
exec(src)
def muts(f):
    L = open(R + '/' + f).read().split('\n'); out = []
    mem = sorted(set(re.findall(r'\bm\w+_d\b', '\n'.join(L))))
    for i, l in enumerate(L):
        t = l.strip()
        if not t or t.startswith(('//', '#', '*', 'template', 'using', 'namespace', '/*', 'static_assert')): continue
        c = l.split('//')[0].rstrip(); ind = len(c) - len(c.lstrip())
        def add(n):
            if n != c: out.append((f, i, n))
        for p, rs in ((r'\bint\b', ('signed char', 'short')), (r'\b(size_t|SizeType)\b', ('unsigned char', 'unsigned short'))):
            for m in re.finditer(p, c):
                for r in rs: add(c[:m.start()] + r + c[m.end():])
        if ind >= 8 and re.match(r'(int|bool|auto|T|Node\w*|\w+Type|const \w+|\w+ \*) ?[&*]? ?\w+( =|;|\()', t) and t.endswith(';'): add(c[:ind] + 'static ' + c[ind:])
        if i + 1 < len(L):
            n = L[i + 1].split('//')[0].rstrip()
            if t.endswith(';') and n.strip().endswith(';') and len(n) - len(n.lstrip()) == ind and c.count('(') == c.count(')') and n.count('(') == n.count(')') and ind >= 8 and '{' not in c + n: add(n + '\n' + c + '\0')
        for m in re.finditer(r'\bm\w+_d\b', c):
            for o in random.Random(l + str(i)).sample(mem, min(2, len(mem))):
                if o != m.group(0): add(c[:m.start()] + o + c[m.end():])
        for m in re.finditer(r'\b(obj|other|ds|list|src|v|s|str|deque|map|tree|heap|stack|queue|array)\.(m\w+_d)', c): add(c[:m.start()] + m.group(2) + c[m.end():])
        for a in ('return;', 'break;', 'continue;'):
            if t == a or t.endswith(' ' + a): add(c.replace(a, ';'))
        add(re.sub(r'\} else \{', '} {', c)); add(re.sub(r'\belse if\b', 'if', c)); add(re.sub(r'\bwhile \((?!.*;$)', 'if (', c)); add(re.sub(r'^(\s*)if \((?!.*;$)', r'\1while (', c))
        for m in re.finditer(r'\(([^(),;]+), ([^(),;]+)\)', c):
            if ';' in c[m.end():] or '{' in c: add(c[:m.start()] + '(%s, %s)' % (m.group(2), m.group(1)) + c[m.end():])
        for m in re.finditer(r'dstruct::move\(([^()]*)\)', c): add(c[:m.start()] + m.group(1) + c[m.end():])
        for m in re.finditer(r'/ (\d)\b', c): add(c[:m.start()] + '/ %d' % (int(m.group(1)) + 1) + c[m.end():])
        for m in re.finditer(r'\* (\d)\b', c): add(c[:m.start()] + '* %d' % (int(m.group(1)) + 1) + c[m.end():])
        for m in re.finditer(r'\b(T|auto|ElemType|KeyType|ValueType|E) (\w+) = ', c): add(c[:m.start()] + m.group(1) + ' & ' + m.group(2) + ' = ' + c[m.end():])
        for m in re.finditer(r'\bconst auto (\w+) = ', c): add(c[:m.start()] + 'const auto & ' + m.group(1) + ' = ' + c[m.end():])
        for p, q in (('front', 'back'), ('back', 'front'), ('begin', 'end'), ('end', 'begin'), ('first', 'second'), ('push', 'pop'), ('max', 'min'), ('->prev', ''), ('->next', ''), ('.next->', '.')):
            for m in re.finditer(re.escape(p) + r'\b' if p[0] != '.' else re.escape(p), c):
                if ind >= 8: add(c[:m.start()] + q + c[m.end():])
        for m in re.finditer(r'(\w*[cC]mp\w*)\((.*), (.*?)\)(?=\)| |;|$)', c): add(c[:m.start()] + '!%s(%s, %s)' % (m.group(1), m.group(3), m.group(2)) + c[m.end():])
        if t.endswith(';') and ind >= 8 and c.count('(') == c.count(')') and 'mSize_d' in '\n'.join(L) and 'static ' not in '\n'.join(L[max(0, i - 12):i]) and re.match(r'[\w:>.\-]+ ?(\(|=|\+\+|--)', t) and not t.startswith(('return', 'for')):
            for g in ('mSize_d != 3', 'mSize_d < 6', 'mSize_d != 0', 'mSize_d > 1'):
                if 'BinaryTree_e' in '\n'.join(L): g = 'BinaryTree_e::' + g
                add(c[:ind] + 'if (' + g + ') ' + t)
        if t.endswith(';') and ind >= 8 and c.count('(') == c.count(')') and re.match(r'[\w:>.\-]+ ?(\(|=|\+\+|--)', t): add(c + ' ' + t)      # the statement twice
    return list(dict.fromkeys(out))
if __name__ == '__main__': main()
