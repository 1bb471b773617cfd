"""the table of planted bugs in DESIGN.md (section 6), from seeded/*/meta.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {'dl_postdec', 'bst_copy_cmp', 'bst_move_cmp', 'bst_find_cmp', 'dl_move_prev', 'heap_push_alias', 'sma_quick_last', 'xvs_strict', 'xvs_assign', 'dq_walk_end', 'avl_walk_height', 'heap_pop_realloc'} | set(sys.argv[1:])
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json')); n = m['needs'] if isinstance(m['needs'], str) else '; '.join(m['needs'])
    rows.append((m['property'], d, n.replace('|', '/').replace('\n', ' ')))
t = '| property | planted bug | needs | first |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (p, d, n[:110], 'missed' if d in missed else '') for p, d, n in sorted(rows))
f = V + '/DESIGN.md'; x = open(f).read(); a, b = x.index('<!-- seeds -->'), x.index('<!-- /seeds -->')
open(f, 'w').write(x[:a] + '<!-- seeds -->\n' + t + x[b:])
