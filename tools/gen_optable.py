#!/usr/bin/env python3
"""Write spec/OpTable.tla from the operation table of the harness."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, '../harness/src/machine.rs')).read()
body = src[src.index('defs! {'):src.index('#[derive(Clone, Debug)]')]
rows = re.findall(r'"(\w+)" "(\w+)" "(\w+)" "(\w+)" "(\w+)";', body)
out = ['------------------------------- MODULE OpTable --------------------------------',
       '(* The calls of the register machine: name, argument kinds, group, function, form.  *)',
       '(* Argument kinds: D/E/B register changed in place (matrix, vector, bytes), M/V/U   *)',
       '(* register read, R/W/P register receiving a returned object, r/c index, n size,    *)',
       '(* k diagonal, b byte, i count, z flag, f value, s exponent, e tolerance, t fraction. *)',
       '(* Written by tools/gen_optable.py from the harness table.                          *)',
       'OpTable == {']
for k, (n, s, g, f, m) in enumerate(rows):
    sig = '<<' + ', '.join('"%s"' % c for c in s) + '>>'
    out.append('  [op |-> "%s", sig |-> %s, g |-> "%s", fn |-> "%s", fm |-> "%s"]%s'
               % (n, sig, g, f, m, '' if k == len(rows) - 1 else ','))
out += ['}', '=' * 79]
open(os.path.join(here, '../spec/OpTable.tla'), 'w').write('\n'.join(out) + '\n')
