#!/usr/bin/env python3
"""measures every corpus job once; corpus/cost.json is only used to choose what the quick tier runs first"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build, suite, corpus, gen
OBL = ['outcome', 'rel', 'iface', 'form', 'sym', 'json', 'subst', 'gates']
f = os.path.join(corpus.DIR, 'cost.json')
cost = json.load(open(f)) if os.path.exists(f) else {}
exe = build.sym_circom()
jobs = []
for s in ['core', 'ctl', 'bus', 'sugar', 'tags', 'gates', 'inst', 'pub', 'div', 'asrt', 'err', 'quad', 'unk', 'asg', 'idx', 'bus2', 'ctl2', 'gates2', 'unk2', 'insp']:
    lv = [0, 1, 2, 'r1', 'r2', 'old'] if s not in ('div', 'asrt', 'err', 'quad', 'unk', 'asg', 'idx', 'unk2') else [0, 1]
    for sk in corpus.load(s):
        for l in lv:
            jobs.append(suite.Job(sk, l, OBL, budget_s=150))
for sk in gen.arith() + gen.lits() + gen.prec():
    jobs.append(suite.Job(sk, 0, OBL, budget_s=150))
jobs = [j for j in jobs if j.label() not in cost]
import random
random.Random(3).shuffle(jobs)
for r in suite.run_jobs(exe, jobs):
    cost[r['label']] = round(r['wall'], 1)
    if r['findings'] or r['error'] or r['truncated'] or r['inconclusive']:
        print(r['label'], r['error'], r['findings'][:1], r['truncated'], r['inconclusive'][:1], flush=True)
json.dump(cost, open(f, 'w'), indent=0, sort_keys=True)
print(len(jobs))
