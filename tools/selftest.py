#!/usr/bin/env python3
"""Does the binding notice wrong answers?  Records a short trace for every
kind of trace job, changes single values in single lines, and counts, per
kind of event and field, how many of the changes the specification rejects.

   selftest.py [Cxx ...]        (not a check; prints a table)
"""
import json, os, random, re, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs, runner
r = random.Random(int(os.environ.get('VERIF_SEED') or 1))
PER = int(os.environ.get('PER') or 12)         # changes per event and field


def change(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1, 2]) if v else 1
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, list):
        v = list(v)
        p = r.random()
        if not v:
            return [1]
        k = r.randrange(len(v))
        if p < .2:
            v.pop(k)
        elif p < .3:
            v.insert(k, v[k])
        else:
            v[k] = change(v[k])
        return v
    if isinstance(v, dict):
        k = r.choice(sorted(v))
        return dict(v, **{k: change(v[k])})
    return v


def shorten(args):
    return re.sub(r'-n (\d+)', lambda m: '-n %d' % min(int(m.group(1)), 60), args)


def main():
    work = tempfile.mkdtemp(prefix='selftest-')
    seen = set()
    try:
        for pid in sys.argv[1:] or ['C%02d' % i for i in range(1, 38)]:
            for j in jobs.jobs(pid, 'quick'):
                if not isinstance(j, runner.T) or j.module == 'MemoryTrace' or j.flavour != 'plain' or j.db:
                    continue
                key = (j.rec, re.sub(r' -(n|max|ops|percent|rounds|threads|len) \d+', '', j.args), j.module, str(j.env))
                if key in seen:
                    continue
                seen.add(key)
                one(pid, j, work)
    finally:
        shutil.rmtree(work)


def one(pid, j, work):
    exe = runner.build(j.rec, j.flavour)
    tr = work + '/t'
    subprocess.run([exe, *shorten(j.args).split(), *(['-dir', runner.programs()] if j.rec == 'rec_programs' else []), '-o', tr, '-seed', '1', '-shard', '0', '-of', str(max(j.shards, 64) if 'sweep' in j.args or j.rec == 'rec_props' else j.shards)],
                   check=True, env=dict(os.environ, UCD_DIR=runner.SPEC + '/data'), stdout=subprocess.DEVNULL)
    lines = runner._spec_lines(tr)[:30000]
    ev = [json.loads(x) for x in lines]
    by = {}
    for n, e in enumerate(ev):
        for k in e:
            if k != 'op' and e['op'] != 'end':
                by.setdefault((e['op'], k), []).append(n)
    todo = [(n, op, k) for (op, k), ns in by.items() for n in r.sample(ns, min(PER, len(ns)))]
    r.shuffle(todo)
    starts = [n for n, e in enumerate(ev) if re.match(r'(new|wnew|snew|fstart|pstart|given)', e['op'])]
    score = {}
    while todo:
        batch, used = [], set()
        for t in list(todo):
            s = max([x for x in starts if x <= t[0]], default=None) if starts else t[0]
            if s not in used and len(batch) < 30:
                used.add(s)
                batch.append(t)
                todo.remove(t)
        out = list(lines)
        for n, op, k in list(batch):
            e = dict(ev[n])
            e[k] = change(e[k])
            if e == ev[n]:
                batch = [b for b in batch if b != (n, op, k)]
                continue
            out[n] = json.dumps(e, separators=(',', ':'))
        if ev[-1]['op'] != 'end':
            out.append('{"op":"end"}')
        with open(tr, 'w') as f:
            f.write('\n'.join(out) + '\n')
        bad, _, _ = runner.validate(j.module, tr, work, j.env or {}, 800)
        at = sorted(n for n, _, _ in batch)
        for n, op, k in batch:
            later = [m for m in at if m > n]
            stop = min([s for s in starts if s > n] + later + [len(out)]) if starts else n + 1
            hit = any(n < b <= stop for b in bad)
            c = score.setdefault((op, k), [0, 0, None])
            c[0] += hit
            c[1] += 1
            if not hit:
                c[2] = out[n]
    for (op, k), (h, t, ex) in sorted(score.items()):
        print('%s %-12s %-14s %-10s %-8s %d/%d%s' % (pid, j.rec, j.module, op, k, h, t, '' if h == t else '   ' + ex[:220]), flush=True)


main()
