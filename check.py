#!/usr/bin/env python3-vt
"""check.py <property id>: decides one property over /repo's current working tree.
VERIF_TIER=quick|thorough, VERIF_SEED (only used to draw validation inputs)."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import core, corpus, harness, run  # noqa: E402

sys.setrecursionlimit(20000)
_G = {}
KEEP = bool(os.environ.get('VERIF_KEEP_GOING'))   # development: list every failing case


def init(work_dir, pch, header, tier, seed, prop, findings, deadline):
    if KEEP:
        import faulthandler
        import signal
        faulthandler.register(signal.SIGUSR1)
    w = core.Work.__new__(core.Work)
    w.dir = work_dir
    _G['r'] = run.Runner(w, pch, header, tier, seed, prop, findings, deadline)
    _G['prop'] = prop
    _G['tier'] = tier


def do_chunk(a):
    idx, members = a
    try:
        if time.time() > _G['r'].deadline:
            return idx, None, 'not reached'
        cases = corpus.cases(_G['prop'], _G['tier'])
        return idx, _G['r'].chunk(idx, [cases[i] for i in members]), None
    except Exception:
        return idx, None, traceback.format_exc()


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    core.ensure_engine()
    cases = corpus.cases(prop, tier)
    findings = [f for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if f['property'] == prop]
    budget = float(os.environ.get('VERIF_BUDGET', 200 if tier == 'quick' else 780))
    per = corpus.CHUNK.get(prop, 10)
    header = harness.HEADER + ''.join(sorted({c.header for c in cases}))
    all_res = []
    errors = []
    violation = None
    with core.Work() as w:
        try:
            pch = core.make_pch(w, header)
            if any(getattr(c, 'two', False) for c in cases):
                src, changed = core.consteval_source(w)
                core.make_pch(w, header, 'prece.hpp', True, src)
        except core.ToolError as e:
            # the public headers alone?
            src = w.path('h.cpp')
            open(src, 'w').write(harness.HEADER)
            r = core.sh([core.GXX, '-std=c++23', '-I' + core.REPO + '/src', '-w', '-fsyntax-only', src])
            if r.returncode:
                report(prop, dict(case='headers', what='the library headers do not compile', source=harness.HEADER, error=str(e)[-3000:]))
                return 1
            print('INCONCLUSIVE property=%s the harness does not compile: %s' % (prop, str(e)[:500]))
            evidence(prop, tier, seed, cases, [], ['harness does not compile'], t0, 0)
            return 0
        # cases with the same character classes go together: what the compiler instantiates for them is shared
        order = sorted(range(len(cases)), key=lambda i: (sorted(set(re.findall(r'\\[dDwWsSN]|\[\^[^\]]*\]|\.', cases[i].key))), i))
        nch = max(1, (len(order) + per - 1) // per)
        chunks = [(k, order[k * len(order) // nch:(k + 1) * len(order) // nch]) for k in range(nch)]
        random.Random(seed).shuffle(chunks)
        ctx = mp.get_context('fork')
        deadline = t0 + budget
        with ctx.Pool(core.NPROC, init, (w.dir, pch, header, tier, seed, prop, findings, deadline)) as pool:
            for idx, rs, err in pool.imap_unordered(do_chunk, chunks):
                if err:
                    errors.append(err[-800:])
                    continue
                all_res += rs
                bad = [r for r in rs if r.status == 'violation']
                if bad and KEEP:
                    for r in bad:
                        print('FAIL\t%s\t%s' % (r.case, r.detail['what']), flush=True)
                    continue
                if bad:
                    violation = bad[0]
                    pool.terminate()
                    break
    internal = [r for r in all_res if r.status == 'nocompile-internal']
    for kind in sorted({r.kind for r in internal}):
        # what a harness names inside the library may change as long as it is gone for all of them
        if all(r.status == 'nocompile-internal' for r in all_res if r.kind == kind):
            errors.append('no harness of kind %s compiles: %s' % (kind, [r for r in internal if r.kind == kind][0].notes[0]))
        elif not violation:
            violation = [r for r in internal if r.kind == kind][0]
    if violation:
        report(prop, violation.detail)
    for r in all_res:
        for f in r.findings:
            print('KNOWN-FINDING: property=%s %s' % (prop, f))
    for r in all_res:
        if r.status == 'inconclusive':
            print('INCONCLUSIVE property=%s case %r: %s' % (prop, r.case, ' | '.join(r.notes)[:400]))
    for e in errors[:5]:
        print('INCONCLUSIVE property=%s %s' % (prop, e))
    evidence(prop, tier, seed, cases, all_res, errors, t0, 1 if violation else 0)
    ok = [r for r in all_res if r.status == 'ok']
    print('%s: %d cases decided, %d inconclusive, %d not reached; %d paths, %d queries, %.1f s' % (
        prop, len(ok), sum(r.status == 'inconclusive' for r in all_res), len(cases) - len(all_res),
        sum(r.outcomes for r in all_res), sum(r.queries for r in all_res), time.time() - t0))
    return 1 if violation else 0


def report(prop, detail):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(detail, sort_keys=True, default=str).encode()).hexdigest()[:10]
    base = os.path.join(d, '%s-%s' % (prop, h))
    src = detail.pop('source', None)
    if src:
        open(base + '.cpp', 'w').write(src)
        detail['replay'] = ('g++ -std=c++23 -I/repo/src -w %s %s.cpp -o /tmp/r && printf "%%s\\n" <lines> | /tmp/r' % (detail.get('opts', ''), base))
    json.dump(detail, open(base + '.json', 'w'), indent=1, default=str)
    print('case %s: %s' % (detail['case'], detail['what']))
    print('VIOLATION property=%s replay=%s.json' % (prop, base))


def evidence(prop, tier, seed, cases, res, errors, t0, nviol):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fns = set()
    for r in res:
        fns |= r.fns
    lens = {}
    for r in res:
        if r.lens:
            lens[r.lens[-1]] = lens.get(r.lens[-1], 0) + 1
    names = sorted({demangle_base(f) for f in fns}, key=lambda n: ('e_regex' not in n, n))
    names = [n for n in names if not re.match(r'(ce_)?c\d+_', n)]
    samples = [dict(case=r.case, lengths=r.lens, paths=r.outcomes, queries=r.queries, validated=r.samples[:1]) for r in res[:400:max(1, len(res) // 8)]]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=sum(r.outcomes for r in res), transitions=sum(r.steps for r in res),
        traces_validated_against_impl=sum(r.validated for r in res), samples=samples,
        states_are='symbolic paths, each standing for all inputs that satisfy its condition',
        transitions_are='LLVM instructions executed symbolically on those paths',
        cases=len(cases), cases_decided=sum(r.status == 'ok' for r in res),
        cases_inconclusive=[(r.case, r.notes[:3]) for r in res if r.status == 'inconclusive'][:50],
        longer_partly_symbolic_inputs_decided=sum(r.templates for r in res),
        cases_not_reached=len(cases) - len(res), tool_errors=errors[:5],
        bounds=corpus.BOUNDS.get(prop, ''), largest_input_length_per_case=lens,
        queries=sum(r.queries for r in res), solver_s=round(sum(r.solver for r in res), 2),
        symbolic_execution_s=round(sum(r.symsecs for r in res), 2),
        encoding_build_s=round(sum(r.build for r in res), 2), validation_s=round(sum(r.valsecs for r in res), 2),
        worker_s=round(sum(r.total for r in res), 2),
        encoding_mismatches=sum(r.mismatch for r in res),
        functions_encoded_count=len(fns), functions_encoded=names[:60],
        known_findings=sum(len(r.findings) for r in res)),
        assumptions=corpus.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def demangle_base(f):
    r = f.split('(')[0]
    return r.split('<')[0][:120]


if __name__ == '__main__':
    sys.exit(main())
