#!/usr/bin/env python3
"""Writes made-up Unicode data files, in the format of the published ones.

   synth_ucd.py SEED DIR

A database of a Unicode version that does not exist: other codepoints with
other classes, mappings of mappings, exclusions, ranges that touch.  What is the same
in all versions stays: Latin-1 and its neighbours below U+0300 do not combine,
nothing below U+00A0 is mapped and nothing below U+00C0 canonically.
"""
import os, random, re, sys
seed, out = int(sys.argv[1]), sys.argv[2]
r = random.Random(seed)
here = os.path.dirname(os.path.abspath(__file__))
src = open(here + '/../harness/common.hpp').read()
known = set()
for m in re.finditer(r'static const (?:ints (?:edge|mark|base)_cps|std::vector<ints> gcb_reps) = (\{.*?\});', src, re.S):
    known |= {int(x, 0) for x in re.findall(r'0x[0-9A-Fa-f]+|\b\d+\b', m.group(1))}
HANGUL = set(range(0xAC00, 0xAC00 + 11172)) | set(range(0x1100, 0x1200))
size = [12, 60, 300, 1500][seed % 4]
pool = set(r.sample(sorted(known), min(size, len(known))))
while len(pool) < size:
    x = r.choice([r.randrange(0x80), r.randrange(0x180), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000)])
    pool |= set(range(x, min(x + r.choice([1, 1, 3, 12]), 0x110000)))
pool |= {0x10FFFF, 0x10000, 0xFFFF} if r.random() < .5 else {1, 2, 0x300, 0x301}
cps = sorted(pool)
marks = r.choice([.15, .4, .6])
ccc = {c: r.choice([1, 9, 10, 100, 199, 202, 220, 230, 230, 240, 254]) if r.random() < marks and c >= 0x300 else 0 for c in cps}
order = [c for c in cps if c and c not in HANGUL]
r.shuffle(order)
TAGS = 'compat font noBreak super sub vertical wide narrow small square fraction initial medial final isolated circle'.split()
dec, pairs = {}, set()
last = None             # the latest canonical mapping: chains of mappings get long
for i, c in enumerate(order):
    if i == 0:
        continue        # mappings only lead to codepoints seen before
    earlier = order[:i]
    recent = earlier[-6:]

    def some():
        return r.choice(recent if r.random() < .4 else earlier if r.random() < .8 else sorted(known - {0} - HANGUL - pool) or earlier)
    p = r.random()
    if c < (0xC0 if p < .35 else 0xA0):
        continue
    if p < .35:
        m = (some(),) if r.random() < .2 else (last if last and r.random() < .4 else some(), some())
        if m not in pairs and (len(m) == 1 or m[1] >= 0x300):
            pairs.add(m)
            dec[c] = ('', m)
            if last not in dec or last in m or r.random() < .3:
                last = c
    elif p < .6:
        dec[c] = ('<%s> ' % r.choice(TAGS), tuple(some() for _ in range(r.choice([1, 1, 2, 3, 5, 18]))))
# mappings of mappings may double: keep them short
full = {}
for c in order:
    if c in dec:
        n = sum(full.get(x, 1) for x in dec[c][1])
        if n > 40:
            del dec[c]
        else:
            full[c] = n
listed = [c for c in order if c in dec and dec[c][0] == '' and len(dec[c][1]) == 2]
if not listed:
    a, b, c = [x for x in range(0x3000, 0x3100) if x not in pool][:3]
    for x in a, b, c:
        ccc.setdefault(x, 0)
    dec[c] = ('', (a, b))
if not any(ccc.values()):
    ccc[0x300] = 230
for c in [x for t, m in dec.values() for x in m]:
    ccc.setdefault(c, r.choice([0, 0, 0, 230]) if c >= 0x300 else 0)     # every codepoint of a mapping is listed itself
os.makedirs(out, exist_ok=True)


def hx(c):
    return '%04X' % c


with open(out + '/UnicodeData.txt', 'w') as f:
    for c in sorted(set(ccc) | set(dec)):
        t, m = dec.get(c, ('', ()))
        f.write('%s;MADE UP %X;%s;%d;L;%s;;;;N;;;;;\n' % (hx(c), c, 'Mn' if ccc.get(c) else 'Lo', ccc.get(c, 0), t + ' '.join(map(hx, m))))
with open(out + '/CompositionExclusions.txt', 'w') as f:
    f.write('# CompositionExclusions-0.0.0.txt\n#\n# ================================================\n\n')
    for c in sorted(r.sample(listed, len(listed) // 5)):
        f.write(hx(c) + r.choice(['    #  MADE UP\n', ' # MADE UP\n', '# MADE UP\n', '\n', ' \n', '  \n']))
    f.write('\n# Total code points\n\n# ================================================\n')
    for c in listed[:3]:
        f.write('# %s             MADE UP\n' % hx(c))
    f.write('\n# EOF\n')
NAMES = ['CR', 'LF', 'Control', 'Extend', 'Prepend', 'SpacingMark', 'L', 'V', 'T', 'LV', 'LVT',
         'Regional_Indicator', 'E_Base', 'E_Modifier', 'ZWJ', 'Glue_After_Zwj', 'E_Base_GAZ']
CONTROLS = [(0, 9, 'Control'), (0xA, 0xA, 'LF'), (0xB, 0xC, 'Control'), (0xD, 0xD, 'CR'), (0xE, 0x1F, 'Control'), (0x7F, 0x9F, 'Control'), (0xAD, 0xAD, 'Control')]
rows, x = [], 0x300
while x <= 0x10FFFF and len(rows) < size * 2:
    a = x + (0 if r.random() < .4 else r.choice([1, 2, 30, 300, 3000]))
    if r.random() < .5:
        a = max(a, r.choice(cps)) if len(rows) > size else min([c for c in cps if c >= a] or [a])
    b = a if r.random() < .5 else a + r.choice([1, 2, 9, 200])
    if a > 0x10FFFF:
        break
    b = min(b, 0x10FFFF)
    rows.append((a, b, r.choice(NAMES)))
    x = b + 1
rows = CONTROLS + rows
with open(out + '/GraphemeBreakProperty.txt', 'w') as f:
    f.write('# GraphemeBreakProperty-0.0.0.txt\n# @missing: 0000..10FFFF; Other\n')
    for n in r.sample(NAMES, len(NAMES)):
        mine = [x for x in rows if x[2] == n]
        f.write('\n# ================================================\n\n')
        for a, b, _ in mine:
            f.write('%s; %s%s\n' % ((hx(a) if a == b else hx(a) + '..' + hx(b)).ljust(r.choice([14, 14, 1])), n,
                                   r.choice([' # Lo  %s MADE UP' % ('     ' if a == b else '[%d]' % (b - a + 1)), '', ' # x', ' '])))
        f.write('\n# Total code points: %d\n' % sum(b - a + 1 for a, b, _ in mine))
    f.write('\n# EOF\n')
