"""one function per kind of check"""
import os, sys, time
from . import build, plan, suite

FUNCS = {
    'exec': 'constraint_generation (execute, assignment, memory slices, templates, buses)',
    'alg': 'circom_algebra (modular_arithmetic, algebra, simplification_utils)',
    'front': 'parser (grammar, sugar removal, comments), type_analysis',
    'simp': 'constraint_list (simplification, rounds, witness)', 'dag': 'dag (instantiation of local constraints, labels)',
    'port': 'constraint_writers and the r1cs/sym/json porting'}
ASSUME = ['the big-integer crate of the compiler is replaced by one whose values may be symbolic; its concrete results are those of num-bigint',
          'the field is the prime field of 17 elements (other small primes and bn128 where the label says so)',
          'program shapes are the listed skeletons; every literal @k and every signal is symbolic',
          'the reference semantics is lib/refsem.py, written from the language documentation']


def run(prop, thorough, seed):
    from . import special
    if hasattr(special, prop):
        return getattr(special, prop)(thorough, seed)
    rep = suite.Report(prop, prop)
    jobs = plan.plan(prop, thorough, seed)
    exe = build.sym_circom()
    t0 = time.time()
    res = suite.run_jobs(exe, jobs, deadline=t0 + (3600 if thorough else 240))
    rep.add_jobs(jobs, res)
    rep.assumptions = ASSUME
    rep.explanation = ('every feasible path of the real compiler over each skeleton, with symbolic literals; on each path the emitted '
                       'files are compared with the reference semantics of the source by polynomial normal forms and z3')
    return rep.finish('translation_validation', bounds(jobs), list(FUNCS.values()))


def bounds(jobs):
    return dict(primes=sorted({j.p if j.p < 10 ** 6 else 'bn128' for j in jobs}, key=str), levels=sorted({str(j.level) for j in jobs}),
                max_paths_per_program=max([j.max_paths for j in jobs] or [0]),
                seconds_per_program=max([j.budget_s for j in jobs] or [0]),
                solver_timeout_ms=max([j.timeout_ms for j in jobs] or [0]),
                outside='other program shapes, larger arrays and loops; symbolic coefficients in the full-size field')
