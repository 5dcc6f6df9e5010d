#!/usr/bin/env python3
"""Turns the pinned Unicode 9.0 data files into spec/data/ucd.json.

   gen_ucd.py DIR_WITH_UCD_FILES OUT.json

Only a change of format: every row keeps the raw field of the file.  Full
decompositions, primary composites, Hangul and all algorithms are derived in
TLA+ (Ucd.tla, Normal.tla).  A table is stored as 4352 page numbers (one per
256 codepoints) and the distinct pages, so that a lookup in TLC is two array
accesses.
"""
import json, re, sys
src, out = sys.argv[1], sys.argv[2]
ccc, dec = {}, {}
for l in open(src + '/UnicodeData.txt', encoding='utf-8'):
    f = l.rstrip('\n').split(';')
    c = int(f[0], 16)
    if int(f[3]):
        ccc[c] = int(f[3])
    if f[5]:
        m = re.fullmatch(r'(<\w+> )?([0-9A-F ]+)', f[5])
        dec[c] = ((m.group(1) or '').strip(' <>'), [int(x, 16) for x in m.group(2).split()])
excl = []
for l in open(src + '/CompositionExclusions.txt', encoding='utf-8'):
    l = l.split('#')[0].split()
    if l:
        excl.append(int(l[0], 16))
NAMES = ['Other', 'CR', 'LF', 'Control', 'Extend', 'Prepend', 'SpacingMark', 'L', 'V', 'T', 'LV', 'LVT',
         'Regional_Indicator', 'E_Base', 'E_Modifier', 'ZWJ', 'Glue_After_Zwj', 'E_Base_GAZ']
gcb = {}
for l in open(src + '/GraphemeBreakProperty.txt', encoding='utf-8'):
    l = l.split('#')[0].strip()
    if l:
        r, v = [x.strip() for x in l.split(';')]
        a, _, b = r.partition('..')
        for c in range(int(a, 16), int(b or a, 16) + 1):
            gcb[c] = NAMES.index(v)

def pages(d):
    ps, idx, seen = [], [], {}
    for p in range(0x110000 // 256):
        pg = tuple(d.get(p * 256 + i, 0) for i in range(256))
        if pg not in seen:
            seen[pg] = len(ps) + 1
            ps.append(list(pg))
        idx.append(seen[pg])
    return dict(index=idx, pages=ps)

rows, rowidx = [], {}
for c in sorted(dec):
    tag, m = dec[c]
    rows.append(dict(c=c, tag=tag, map=m))
    rowidx[c] = len(rows)
# candidates for composition, by first codepoint: every two-codepoint canonical mapping
firsts = {}
for c in sorted(dec):
    if dec[c][0] == '' and len(dec[c][1]) == 2:
        firsts.setdefault(dec[c][1][0], []).append([dec[c][1][1], c])
pairs, pidx = [], {}
for a in sorted(firsts):
    pairs.append(dict(a=a, to=firsts[a]))
    pidx[a] = len(pairs)
json.dump(dict(version='9.0.0', ccc=pages(ccc), dec=pages(rowidx), rows=rows, first=pages(pidx), pairs=pairs,
               excl=pages({c: 1 for c in excl}), gcb=pages(gcb), gcbnames=NAMES), open(out, 'w'), separators=(',', ':'))
