#!/usr/bin/env python3
# Rewrites the table of seeded changes at the end of DESIGN.md from seeded/*/meta.json.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(root + '/DESIGN.md').read().split('## Seeded changes')[0]
extra = {'arraylit-order': 'C02', 'match-nil': 'C16', 'crlf-lines': 'C19', 'gcmap-mask': 'C07', 'dce-name': 'C03'}
out = [head + '## Seeded changes', '',
       'Each change compiles and passes the 25 stable tests; its demo passes without and fails with it. All are caught by',
       'the quick check of their property; the list after the table says which checks had to be strengthened first. Those marked',
       '† touch only files in Clara.', '',
       '| change | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    p = open(os.path.dirname(f) + '/patch.diff').read()
    files = [l.split(' b/')[1] for l in p.splitlines() if l.startswith('diff --git')]
    dag = ' †' if all(x.endswith('.clara') for x in files) else ''
    by = m['property'] + (', ' + extra[i] if i in extra else '')
    out.append('| %s%s | %s | %s |' % (i, dag, m['needs'].replace('|', '/'), m.get('caught_by', by)))
out += ['', 'Missed at first, and what was added to the check because of it: thunk-root (C07: the "roots" laboratory), bounds-elim',
 '(C09: flow cases), ascii-mangle and case-fold (C18: families of near names), block-scope (C08: blocks in loops), stale-skip',
 '(property C26), gcmap-mask and large frames (property C27), spill-root (C07: closures as arguments), fold-wide (C01:',
 'expressions of literals only, with few operators and extreme values), name-trunc (C27: long names of functions, types,',
 'fields, cases, type parameters and captured variables which differ only at their ends), line-wrap (C17, C18, C19: very long',
 'lines, tokens and gaps), group-retry (C15: constructs nested many times around a mistake), env-share (found only now and then;',
 'C04: closures over variables of the same names and other types, called after collections). Mutants of the compiler which',
 "survived the repository's tests and the checks led to further kinds of mistakes in C16: ambiguous overload names as values,",
 'repeated type parameters, too many captured variables or variadic arguments, `deref` and `length` of other types, and bodies',
 'generated such that some path does not return.', '']
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
