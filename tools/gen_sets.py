#!/usr/bin/env python3
"""Writes harness/ucd_sets.hpp: sets of codepoints worth trying, from
   spec/data/ucd.json (or: gen_sets.py UCD.json OUT.hpp).  Only used to choose
   inputs, never to judge outputs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
src, out = sys.argv[1:] or (here + '/spec/data/ucd.json', here + '/harness/ucd_sets.hpp')
d = json.load(open(src))


def get(t, c):
    return t['pages'][t['index'][c // 256] - 1][c % 256]


firsts = [p['a'] for p in d['pairs']]
seconds = sorted({t[0] for p in d['pairs'] for t in p['to']})
canon = [r['c'] for r in d['rows'] if r['tag'] == '']
compat = [r['c'] for r in d['rows'] if r['tag'] != '']
marks = [c for c in range(0x110000) if get(d['ccc'], c)]
classes = [get(d['ccc'], c) for c in marks]
maps = {r['c']: r['map'] for r in d['rows'] if r['tag'] == ''}


def arr(n, v):
    return 'static const ints %s = { %s };\n' % (n, ', '.join(map(str, v)))


with open(out, 'w') as f:
    f.write('// generated by tools/gen_sets.py: inputs worth trying\n#ifndef VERIF_UCD_SETS\n#define VERIF_UCD_SETS\n#include "common.hpp"\n')
    f.write(arr('ucd_firsts', firsts) + arr('ucd_seconds', seconds) + arr('ucd_canon', canon) + arr('ucd_compat', compat)
            + arr('ucd_marks', marks) + arr('ucd_mark_classes', classes))
    f.write('// canonical mappings: how many, then the codepoints, in the order of ucd_canon\n')
    f.write(arr('ucd_canon_maps', [x for c in canon for x in [len(maps[c])] + maps[c]]))
    f.write('#endif\n')
print(len(firsts), len(seconds), len(canon), len(compat), len(marks))
