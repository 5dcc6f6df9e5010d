#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of jobs."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import jobs, runner
props = [json.loads(l) for l in open(here + '/../properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        js = jobs.jobs(pid, 'quick')
    except KeyError:
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    mods = sorted({j.module for j in js if isinstance(j, (runner.M, runner.R))})
    traces = sorted({j.module for j in js if isinstance(j, (runner.T, runner.C, runner.U))})
    how = []
    if mods:
        how.append('TLA+ model checking with TLC (%s)' % ', '.join(mods))
    if any(isinstance(j, runner.R) for j in js):
        how.append('replay of every model transition in the real code')
    what = 'recorded answers of the compiler' if any(isinstance(j, runner.C) for j in js) else 'recorded executions'
    if any(isinstance(j, runner.U) for j in js):
        what = 'recorded answers of the compiler and linker, and of the programs'
    how.append('TLC trace validation of %s (%s)' % (what, ', '.join(traces)))
    checks.append(dict(property=pid, quick_cmd='bin/check %s quick' % pid, thorough_cmd='bin/check %s thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique='; '.join(how), level='model_checking',
                       level_note=jobs.level_note(pid)))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='Specifications are in TLA+ (spec/), checked with TLC. No hooks in /repo: every check builds its recorders (harness/) against the headers and sources of the working tree. See DESIGN.md.')
json.dump(m, open(here + '/../MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not yet')
