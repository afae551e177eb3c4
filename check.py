#!/usr/bin/env python3
"""check.py <ID>: decide one property on /repo's current working tree.

exit 0: the rule holds on every instance analysed (known findings are printed); exit 1: a VIOLATION line; exit 2: the analysis
could not give an answer (front end failed, an anchor of the rule is gone, an instance could not be analysed)."""
import os, sys, json, time, traceback, importlib
if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of traversal in every run
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'sa'), os.path.join(VERIF, 'rules')]
sys.setrecursionlimit(20000)
from db import AnalysisBroken, REPO
import db as dbm

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.viol = []; self.counts = {}; self.samples = []; self.assume = []; self.rules = {}; self.floors = []; self.broken = []
    def rule(self, name, text):
        """declare a rule; obligations are then counted per rule"""
        self.rules.setdefault(name, {'text': text, 'obligations': 0, 'violated': 0})
    def ok(self, rule, n=1): self.rules[rule]['obligations'] += n
    def bad(self, rule, file, line, fn, msg, key=None):
        r = self.rules[rule]; r['obligations'] += 1; r['violated'] += 1
        k = key or '%s|%s|%s' % (rule, file, fn)
        if not any(v['key'] == k and v['msg'] == msg for v in self.viol):
            self.viol.append({'rule': rule, 'file': file, 'line': line, 'function': fn, 'msg': msg, 'key': k})
    def check(self, cond, rule, file, line, fn, msg, key=None):
        if cond: self.ok(rule)
        else: self.bad(rule, file, line, fn, msg, key)
        return cond
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def setc(self, name, n): self.counts[name] = n
    def sample(self, s, lim=12):
        if len(self.samples) < lim: self.samples.append(s)
    def floor(self, name, n):
        """instances confirmed by reading; fewer means the rule no longer sees its anchors"""
        if self.counts.get(name, 0) < n: self.broken.append('%s: %d found, at least %d confirmed by reading' % (name, self.counts.get(name, 0), n))
    def undecided(self, what): self.broken.append(what)

def main():
    if len(sys.argv) != 2: print(__doc__); return 2
    pid = sys.argv[1]; t0 = time.time()
    mod = importlib.import_module('rules_' + pid.lower())
    ctx = Ctx(pid)
    for r, t in mod.RULES.items(): ctx.rule(r, t)
    try:
        mod.run(ctx)
        err = None
    except AnalysisBroken as e: err = 'ANALYSIS-BROKEN: %s' % e
    except Exception: err = 'ANALYSIS-BROKEN: internal error\n' + traceback.format_exc()
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'known']
    new = []; hit = {}
    for v in ctx.viol:
        m = [k for k in known if k['key'] == v['key'] and (not k.get('contains') or k['contains'] in v['msg'])]
        if m: hit.setdefault(id(m[0]), (m[0], []))[1].append(v)
        else: new.append(v)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'out', pid + '.txt')
    with open(rep, 'w') as fh:
        for v in new: fh.write('%s:%d: [%s.%s] in %s: %s\n    rule: %s\n    key: %s\n' % (v['file'], v['line'], pid, v['rule'], v['function'], v['msg'], ctx.rules[v['rule']]['text'], v['key']))
        for k, vs in hit.values(): fh.write('known: %s (%s)\n' % (k['what'], '; '.join('%s:%d' % (v['file'], v['line']) for v in vs)))
        if err: fh.write(err + '\n')
        for b in ctx.broken: fh.write('undecided: ' + b + '\n')
    for k, vs in hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = sum(r['obligations'] for r in ctx.rules.values())
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = os.environ.get('VERIF_SEED', '1'); seed = int(seed) if seed.lstrip('-').isdigit() else 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {'explanation': mod.EXPLAIN, 'rules': {k: {'rule': r['text'], 'obligations': r['obligations'], 'violated': r['violated']} for k, r in ctx.rules.items()},
                       'obligations_total': tot, 'instances': ctx.counts, 'samples': ctx.samples or ['none'], 'known_findings': len(hit)},
          'assumptions': getattr(mod, 'ASSUMES', []) + ctx.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations over %s; %d violated, %d known; %.1fs' % (pid, tot, ', '.join('%s=%s' % kv for kv in ctx.counts.items()), len(new), len(hit), time.time() - t0))
    if new:
        for v in new[:8]: print('  %s:%d [%s] %s: %s' % (v['file'], v['line'], v['rule'], v['function'], v['msg'][:260]))
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    if err: print(err); return 2
    if ctx.broken:
        for b in ctx.broken: print('ANALYSIS-BROKEN: ' + b)
        return 2
    if any(r['obligations'] == 0 for r in ctx.rules.values()):
        print('ANALYSIS-BROKEN: rule without instances: ' + ', '.join(k for k, r in ctx.rules.items() if r['obligations'] == 0)); return 2
    return 0
if __name__ == '__main__': sys.exit(main())
