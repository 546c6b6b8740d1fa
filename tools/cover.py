#!/usr/bin/env python3
"""cover.py DIR: lines and branch sides of menpofit that no symbolic path took.

  mkdir /tmp/cov; for i in $(seq -w 1 30); do VERIF_COV=/tmp/cov ./run.py C$i; done; tools/cover.py /tmp/cov
"""
import ast
import dis
import glob
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
seen = set()
for f in glob.glob(sys.argv[1] + '/*'):
    seen.update(l.strip() for l in open(f))
lines, sides = set(), {}
for x in seen:
    q = x.split(':')
    if len(q) == 2:
        lines.add((q[0], int(q[1])))
    elif len(q) == 5:
        sides.setdefault((q[0], q[1], int(q[2])), {}).setdefault(int(q[3]), set()).add(int(q[4]))


def codes(co):
    yield co
    for c in co.co_consts:
        if hasattr(c, 'co_code'):
            yield from codes(c)


tot = hit = 0
for f in sorted(glob.glob(REPO + '/menpofit/**/*.py', recursive=True)):
    rel = f[len(REPO) + 1:]
    if '/test/' in f or rel.endswith('_version.py'):
        continue
    src = open(f).read()
    text = src.splitlines()
    for co in codes(compile(src, f, 'exec')):
        if co.co_name in ('<module>',) or not co.co_flags & 2:   # functions only
            continue
        ls = sorted({l for _, _, l in co.co_lines() if l} - {co.co_firstlineno})
        got = [l for l in ls if (rel, l) in lines]
        tot += len(ls)
        hit += len(got)
        if co.co_qualname.endswith('__str__'):
            continue
        if not got:
            print('%s %s: never' % (rel, co.co_qualname))
            continue
        for l in ls:
            if l not in got:
                print('%s:%d %s: line  %s' % (rel, l, co.co_qualname, text[l - 1].strip()[:90]))
        br = sides.get((rel, co.co_qualname, co.co_firstlineno), {})
        line_of = {i.offset: i.positions.lineno for i in dis.get_instructions(co)}
        for a, b in sorted(br.items()):
            if len(b) == 1:
                l = line_of.get(a)
                if l and text[l - 1].strip().startswith(('if', 'elif', 'while')):
                    print('%s:%d %s: one side  %s' % (rel, l, co.co_qualname, text[l - 1].strip()[:90]))
print('%d of %d lines of functions run symbolically' % (hit, tot))
