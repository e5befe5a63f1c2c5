"""Decides cases: compiles chunks of them, executes them symbolically, discharges the obligations with z3,
replays what z3 finds on natively compiled code."""
import json
import os
import random
import re
import subprocess
import time
import traceback

import z3

from . import core
from . import harness as H
from . import pat

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
static std::string unhex(const std::string& s){ std::string r; if(s=="-") return r; for(size_t i=0;i+1<s.size();i+=2){ char t[3]={s[i],s[i+1],0}; r+=(char)strtol(t,0,16);} return r; }
static int out[200000];
int main(){
  std::string line;
  while(std::getline(std::cin,line)){
    std::istringstream is(line); int k,nout; is>>k>>nout; memset(out,0x55,sizeof(int)*nout);
    std::vector<const char*> p; std::vector<char*> mem; std::string a,m,z;
    while(is>>a>>m>>z){
      if(m=="n"){ p.push_back(nullptr); p.push_back(nullptr); continue; }
      std::string x=unhex(a),y=unhex(m),w=unhex(z); x+=y; size_t b=x.size()-y.size(); size_t e=x.size(); x+=w;
      char* c=(char*)malloc(x.size()?x.size():1); memcpy(c,x.data(),x.size()); mem.push_back(c);
      p.push_back(c+b); p.push_back(c+e);
    }
    call(k,p.data(),out);
    for(int i=0;i<nout;i++) printf("%d ",out[i]);
    printf("\n"); fflush(stdout);
    for(char* c: mem) free(c);
  }
}
'''


def driver_main(fns, prototypes=True):
    s = ''
    if prototypes:
        for n, _, nb, _ in fns:
            s += 'extern "C" void %s(%s);\n' % (n, ','.join(['const char*,const char*'] * nb + ['int*']))
    s += '\nstatic void call(int k,const char*const*p,int*out){ switch(k){\n'
    for i, (n, _, nb, _) in enumerate(fns):
        s += 'case %d: %s(%s,out); break;\n' % (i, n, ','.join('p[%d]' % j for j in range(2 * nb)))
    return DRIVER.replace('static std::string unhex', s + '}}\nstatic std::string unhex', 1)


def line_for(k, nout, bufs):
    r = ['%d' % k, '%d' % nout]
    for b in bufs:
        if b is None:
            r += ['-', 'n', '-']
        else:
            if isinstance(b, (bytes, bytearray)):
                b = (b'', b, b'')
            r += [x.hex() or '-' for x in b]
    return ' '.join(r)


def run_lines(exe, lines, timeout=20, env=None):
    """list of output vectors, or ('rc', code, stderr)"""
    try:
        r = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, env=env)
    except subprocess.TimeoutExpired:
        return ('timeout', timeout, '')
    if r.returncode:
        return ('rc', r.returncode, r.stderr[-3000:])
    return [[int(x) for x in l.split()] for l in r.stdout.splitlines()]


class Result:
    def __init__(self, case):
        self.case = case.key
        self.kind = type(case).__name__ + ' ' + getattr(case, 'how', '')
        self.status = 'ok'          # ok | violation | inconclusive
        self.notes = []
        self.detail = None
        self.lens = []
        self.templates = 0
        self.outcomes = 0
        self.steps = 0
        self.queries = 0
        self.solver = 0.0
        self.symsecs = 0.0
        self.build = 0.0
        self.total = 0.0
        self.valsecs = 0.0
        self.validated = 0
        self.mismatch = 0
        self.samples = []
        self.fns = set()
        self.findings = []

    def undecided(self, why):
        if self.status == 'ok':
            self.status = 'inconclusive'
        self.notes.append(why)


def lens_arg(lens):
    return ','.join(str(x) for x in lens)


def split_symbolic(enc, o, limit=400):
    """outcomes with symbolic outputs, one for each feasible value of them"""
    out = enc.out(o)
    pc = enc.pc(o)
    if not any(z3.is_expr(x) for x in out):
        return [(pc, out)]
    sym = [(i, x if not z3.is_bool(x) else z3.If(x, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))) for i, x in enumerate(out) if z3.is_expr(x)]
    s = z3.SolverFor('QF_BV')
    s.add(pc)
    r = []
    while s.check() == z3.sat:
        m = s.model()
        vals = [(i, x, m.eval(x, model_completion=True)) for i, x in sym]
        c = z3.And([x == v for _, x, v in vals])
        o2 = list(out)
        for i, x, v in vals:
            o2[i] = v.as_signed_long()
        r.append((z3.And(pc, c), o2))
        s.add(z3.Not(c))
        if len(r) > limit:
            raise core.ToolError('too many values of a symbolic output')
    return r


class Runner:
    def __init__(self, work, pch, header, tier, seed, prop, findings, deadline):
        self.w = work
        self.pch_ce = work.path('prece.hpp')
        self.ce_src = work.path('ce_src')
        self.pch = pch
        self.header = header
        self.tier = tier
        self.rng = random.Random(seed)
        self.prop = prop
        self.leadsecs = 0.0
        self.findings = findings
        self.deadline = deadline
        from . import cases
        self.limits = cases.QUICK_LIMITS if tier == 'quick' else cases.THOROUGH_LIMITS
        self.secs = 20 if tier == 'quick' else 90

    # ---- native
    def gxx(self, case, tag, opts=('-O1',), cxx=core.GXX):
        fns = case.functions(tag)
        src = self.w.path('n_%s_%s.cpp' % (tag, re.sub(r'\W', '', ''.join(opts) + cxx[-6:])))
        with open(src, 'w') as f:
            f.write(self.header + '\n' + '\n'.join(t for _, t, _, _ in fns) + driver_main(fns, False))
        exe = src[:-4]
        extra = ['-ftemplate-depth=4000'] + (['-fconstexpr-steps=50000000', '-fbracket-depth=2000'] if 'clang' in cxx else ['-fconstexpr-ops-limit=500000000'])
        r = core.sh([cxx, '-std=c++23', '-I' + core.REPO + '/src', '-w'] + extra + list(opts) + [src, '-o', exe], timeout=400)
        if r.returncode:
            return None, src, r.stderr.decode(errors='replace')
        return exe, src, ''

    def confirm(self, case, tag, datas, around=None):
        """run the real code natively on one input; returns description of the violation or None, and the replay info.
        datas: per function a list of buffers"""
        fns = case.functions(tag)
        exe, src, err = self.gxx(case, tag)
        if not exe:
            return 'does not compile with g++', dict(source=open(src).read(), error=err[-2000:])
        lines = [line_for(i, f[3], [self.wrap(d, around) for d in datas[i]]) for i, f in enumerate(fns)]
        r = run_lines(exe, lines)
        info = dict(source=open(src).read(), lines=lines)
        if not isinstance(r, list):
            return 'on %s: the real code ends with %s' % (datas, r[:2]), dict(info, native=r)
        info['native'] = r
        if hasattr(case, 'judge_each'):
            return case.judge_each([d[0] for d in datas], r), info
        return case.judge(datas[0], r), info

    @staticmethod
    def wrap(d, around):
        if d is None or not around:
            return d
        lo = min([0] + list(around))
        hi = max([-1] + list(around)) + 1
        before = bytes(around.get(i, 0x5a) for i in range(lo, 0))
        after = bytes(around.get(i, 0x5a) for i in range(len(d), max(hi, len(d))))
        return (before, d, after)

    def confirm_memory(self, case, tag, datas, kind, around):
        """out-of-view reads and uninitialised values on the real code"""
        fns = case.functions(tag)
        san = ['memory'] if kind == 'UNINIT' else ['address', 'memory']
        infos = {}
        for s in san:
            exe, src, err = self.gxx(case, tag, ('-O0', '-g', '-fsanitize=' + s, '-fno-omit-frame-pointer'), core.CLANG)
            if not exe:
                continue
            lines = [line_for(i, f[3], datas[i]) for i, f in enumerate(fns)]
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', MSAN_OPTIONS='exit_code=77')
            r = run_lines(exe, lines, env=env)
            infos = dict(source=open(src).read(), lines=lines, native=str(r)[:3000], opts='-fsanitize=' + s)
            if not isinstance(r, list):
                return 'on %s: %s (%s sanitizer: %s)' % (datas, kind, s, (re.findall(r'(?:ERROR|WARNING): \S+: ([^\n]*)', r[2]) or [r[1]])[0]), infos
        # the result depends on what lies around the view
        if around:
            exe, src, err = self.gxx(case, tag)
            if exe:
                rs = set()
                for fill in (dict(around), {k: 0 for k in around}, {k: 0xff for k in around}, {k: 0x61 for k in around}):
                    lines = [line_for(i, f[3], [self.wrap(d, fill) for d in datas[i]]) for i, f in enumerate(fns)]
                    rs.add(str(run_lines(exe, lines)))
                if len(rs) > 1:
                    return 'on %s: the result depends on memory outside the view: %s' % (datas, sorted(rs)), dict(source=open(src).read(), lines=lines, native=sorted(rs))
        return None, infos

    # ---- one case on one choice of lengths
    def decide(self, case, tag, lens, encs, dec, res):
        nb = case.nbufs
        vs = []
        first = 0
        for l in lens:
            if l == 'n':
                vs.append(None)
            else:
                vs.append([encs[0].vars[first + i] for i in range(l)])
                first += l
        nbytes = first
        case.prepare(lens, vs)
        fnd = [f for f in self.findings if f['case'] == case.key]
        exclude = []
        for f in fnd:
            for i in f['inputs']:
                d = bytes.fromhex(i)
                if len(d) == nbytes:
                    exclude.append(z3.Not(z3.And([encs[0].vars[k] == d[k] for k in range(nbytes)])))
        bads = []      # (cond, kind, fi, outcome)
        rets = []
        all_pc = []
        for fi, enc in enumerate(encs):
            lst = []
            pcs = []
            for o in enc.outcomes:
                pc = enc.pc(o)
                pcs.append(pc)
                res.outcomes += 1
                k = o['kind']
                if k in ('UNSUP', 'LIMIT', 'STACK'):
                    bads.append((pc, k, fi, o))
                    continue
                if case.memory_matters and (o['flags'] & 1 or k in ('OOBREAD', 'NULLREAD', 'UNINIT', 'OOBWRITE', 'NULLWRITE', 'INPUTWRITE', 'CONSTWRITE')):
                    bads.append((pc, 'OOBREAD' if o['flags'] & 1 else k, fi, o))
                    continue
                if k != 'RET':
                    bads.append((pc, k, fi, o))
                    continue
                if case.concretize:
                    parts = split_symbolic(enc, o)
                else:
                    parts = [(pc, enc.out(o))]
                for pc2, out in parts:
                    lst.append((pc2, out))
                    c = False if case.bad_all.__func__ is not _base_bad_all() else case.bad_ret(fi, out, vs)
                    if c is True:
                        bads.append((pc2, 'RET', fi, o))
                    elif c is not False:
                        bads.append((z3.And(pc2, c), 'RET', fi, o))
            rets.append(lst)
            all_pc.append(pcs)
        if case.bad_all.__func__ is not _base_bad_all():
            if all(len(r) for r in rets):
                for c in case.bad_all(rets, vs):
                    bads.append((c, 'RET', 0, None))
        # coverage: every input takes one of the explored paths
        for fi, pcs in enumerate(all_pc):
            r, _ = dec.check(z3.Not(z3.Or(pcs)))
            if r == 'unknown':
                return self.out_of_reach(res, '%s: the solver gave no answer' % (lens,))
            if r != 'unsat':
                res.undecided('%s: the explored paths do not cover all inputs (%s)' % (lens, r))
        # decide; what is undecided because the engine gave up is set apart
        hard = [b for b in bads if b[1] in ('UNSUP', 'LIMIT', 'STACK')]
        soft = [b for b in bads if b[1] not in ('UNSUP', 'LIMIT', 'STACK')]
        tpl = any(isinstance(l, core.Tpl) for l in lens)
        if tpl and hard and case.bad_all.__func__ is not _base_bad_all():
            soft = []      # there is nothing to compare the paths of the other function with
        tries = leads = 0
        blocked = []
        while soft and tries < 4:
            r, m = dec.check(z3.Or([b[0] for b in soft]), *exclude, *blocked)
            if r == 'unsat':
                break
            if r == 'unknown':
                return self.out_of_reach(res, '%s: the solver gave no answer' % (lens,))
            tries += 1
            m = self.prettier(dec, soft, exclude + blocked, encs, nbytes, m)
            v = self.replay(case, tag, lens, encs, m, vs, soft, res)
            if v:
                return
            if v is None:
                # a lead that comes to nothing
                tries -= 1
                leads += 1
                if leads >= 3:
                    break
                blocked.append(encs[0].vars[0] != m.eval(encs[0].vars[0], model_completion=True))
                continue
            blocked.append(z3.Not(z3.And([x == m.eval(x, model_completion=True) for x in encs[0].vars.values()] or [z3.BoolVal(True)])))
            if not nbytes:
                break
        if tries:
            res.undecided('%s: a counterexample of the encoding is not confirmed by the compiled code' % (lens,))
        if hard:
            r, m = dec.check(z3.Or([b[0] for b in hard]), *exclude)
            if r != 'unsat':
                ks = sorted({'%s %s' % (b[1], b[3].get('where', '')) for b in hard})
                # a concrete look at what the engine could not follow
                if r == 'sat' and self.replay(case, tag, lens, encs, m, vs, hard, res):
                    return
                if ks == ['LIMIT '] or tpl and all(k.startswith('LIMIT') for k in ks):
                    return self.out_of_reach(res, '%s: out of time' % (lens,))
                res.undecided('%s: %s' % (lens, '; '.join(ks)[:300]))
        # known findings: still there?
        for f in fnd:
            for i in f['inputs']:
                d = bytes.fromhex(i)
                if len(d) == nbytes and lens[0] != 'n':
                    w, info = self.confirm(case, tag + 'k', [[d]] * len(case.functions(tag)))
                    if w:
                        res.findings.append('%s: %s' % (case.key, w))
        return rets

    @staticmethod
    def out_of_reach(res, why):
        """this length is beyond what is decided; the bound of the case is the one before"""
        if res.lens or '@' in why:
            res.notes.append('bound: ' + why)
        else:
            res.undecided(why)

    def prettier(self, dec, bads, extra, encs, n, m):
        """prefer a printable counterexample"""
        if not n:
            return m
        c = z3.Or([b[0] for b in bads])
        for lo, hi in ((97, 99), (32, 126)):
            r, m2 = dec.check(c, *extra, *[z3.And(z3.UGE(encs[0].vars[i], lo), z3.ULE(encs[0].vars[i], hi)) for i in range(n)])
            if r == 'sat':
                return m2
        return m

    def replay(self, case, tag, lens, encs, m, vs, bads, res):
        datas = []
        first = 0
        one = []
        for l in lens:
            if l == 'n':
                one.append(None)
            else:
                one.append(core.model_bytes(encs[0], m, l, first))
                first += l
        nf = len(encs)
        if hasattr(case, 'pick'):
            datas = [[d] for d in case.pick(m, vs)]
        else:
            datas = [one] * nf
        around = core.model_around(encs[0], m)
        if hasattr(case, 'escalate'):
            return self.lead(case, tag, datas[0], res)
        if getattr(case, 'two', False):
            why, info = self.confirm_ce(case, tag, datas[0][0])
            if why:
                hit = [b for b in bads if z3.is_true(m.eval(b[0], model_completion=True))]
                res.status = 'violation'
                res.detail = dict(case=case.key, what=why, kind=[b[1] for b in hit], where=[(b[3] or {}).get('where', '') for b in hit][:3],
                                  input=[None if x is None else x.hex() for x in datas[0]], **info)
                return True
            res.notes.append('not confirmed by constant evaluation: %s %s' % ([b[1] for b in hit] if 'hit' in dir() else '', datas[0]))
            return False
        hit = [b for b in bads if z3.is_true(m.eval(b[0], model_completion=True))]
        kinds = [b[1] for b in hit]
        mem = [k for k in kinds if k in ('OOBREAD', 'NULLREAD', 'UNINIT', 'OOBWRITE', 'NULLWRITE', 'INPUTWRITE', 'CONSTWRITE')]
        why = info = None
        if case.memory_matters and mem:
            why, info = self.confirm_memory(case, tag + 'v', datas, mem[0], around)
        if not why:
            why, info2 = self.confirm(case, tag + 'v', datas, around)
            info = info2 or info
        if why:
            res.status = 'violation'
            res.detail = dict(case=case.key, what=why, kind=kinds, where=[(b[3] or {}).get('where', '') for b in hit][:3],
                              input=[[None if x is None else x.hex() for x in d] for d in datas],
                              around=around, **(info or {}))
            return True
        res.notes.append('not confirmed natively: %s %s' % (kinds, one))
        return False

    # ---- constant evaluation
    @staticmethod
    def ce_var(name, fname, nout, d):
        """a constant with the outputs of a harness on one input"""
        if d is None:
            a, c = '', 'nullptr,nullptr'
        else:
            a = 'const char in[]={%s};' % (','.join("'\\x%02x'" % x for x in d) or '0')
            c = 'in,in+%d' % len(d)
        return 'static constexpr auto %s=[](){ std::array<int,%d> o{}; %s ce_%s(%s,o.data()); return o; }();' % (name, nout, a, fname, c)

    def confirm_ce(self, case, tag, d):
        """evaluate one input for real, in both ways and with both compilers; a description of what goes wrong or None"""
        name, text, _, nout = case.functions(tag + 'v')[0]
        bufs = 'char*m=nullptr;' if d is None else 'volatile char s[]={%s}; char*m=new char[%d]; for(int i=0;i<%d;++i) m[i]=s[i];' % (
            ','.join("'\\x%02x'" % x for x in d) or '0', max(len(d), 1), len(d))
        prog = (self.header + '\n' + text + '\n' + self.ce_var('r', name, nout, d) +
                '\n#include <cstdio>\nint main(){ static int out[%d]; %s %s(m,m+%d,out); for(int x: r) printf("%%d ",x); printf("\\n"); for(int x: out) printf("%%d ",x); printf("\\n"); }\n' % (nout, bufs, name, len(d or b'')))
        src = self.w.path('ce_%s.cpp' % tag)
        open(src, 'w').write(prog)
        note = None
        for cxx in (core.GXX, core.CLANG):
            extra = ['-ftemplate-depth=4000'] + (['-fconstexpr-steps=50000000', '-fbracket-depth=2000'] if 'clang' in cxx else ['-fconstexpr-ops-limit=500000000'])
            r = core.sh([cxx, '-std=c++23', '-I' + core.REPO + '/src', '-w', '-O1'] + extra + [src, '-o', src[:-4]], timeout=300)
            err = r.stderr.decode(errors='replace')
            if r.returncode:
                if re.search(r'step limit|ops-limit|constexpr-loop-limit|constexpr-depth', err):
                    continue
                return 'on %r: constant evaluation is rejected: %s' % (d, ([l for l in err.splitlines() if 'error' in l] or [''])[0][-200:]), dict(source=prog, error=err[-2500:])
            o = core.sh([src[:-4]], timeout=20)
            ls = [[int(x) for x in l.split()] for l in o.stdout.decode().splitlines()]
            if o.returncode or len(ls) != 2:
                return 'on %r: the run-time evaluation ends with %s' % (d, o.returncode), dict(source=prog)
            why = case.judge([d], [ls[1], ls[0]])
            if why:
                return why, dict(source=prog)
        return None, None

    def evaluate(self, idx, cases, tags, fns, evs, results):
        """constant-evaluate an input of every explored path; the front end compares it with what the encoding says"""
        body = [t for f in fns for _, t, _, _ in f[:1]]
        src = '\n'.join(body) + '\n'
        at = {}
        line = src.count('\n') + 1
        k = 0
        for i, es in evs.items():
            name, _, _, nout = fns[i][0]
            for d, want in es:
                v = 'x%d' % k
                k += 1
                cond = '&&'.join('%s[%d]==%d' % (v, j, x) for j, x in enumerate(want) if x is not None) or 'true'
                src += self.ce_var(v, name, nout, d) + ' static_assert(%s);\n' % cond
                at[line] = (i, d, want)
                line += 1
        if not at:
            return
        p = self.w.path('ev%s.cpp' % idx)
        open(p, 'w').write(src)
        r = core.sh([core.CLANG] + core.IRFLAGS + ['-include-pch', self.pch + '.pch', '-fsyntax-only', '-ferror-limit=0', p], timeout=300)
        err = r.stderr.decode(errors='replace')
        bad = {int(m.group(1)) for m in re.finditer(r'ev%s\.cpp:(\d+):\d+: error' % re.escape(str(idx)), err)}
        if r.returncode and not bad & set(at):
            for i in evs:
                results[i].undecided('constant evaluation: ' + err[-300:])
            return
        for l, (i, d, want) in at.items():
            if l not in bad:
                results[i].validated += 1
                if not results[i].samples:
                    results[i].samples.append(dict(constant_evaluated_input=repr(d), output=want[:12]))
        for l in sorted(bad & set(at))[:6]:
            i, d, want = at[l]
            why, info = self.confirm_ce(cases[i], tags[i], d)
            if why:
                results[i].status = 'violation'
                results[i].detail = dict(case=cases[i].key, what=why, input=[None if d is None else d.hex()], **info)
                return
            results[i].mismatch += 1
            results[i].undecided('encoding and constant evaluation differ on %r: %s' % (d, want[:10]))

    def lead(self, case, tag, data, res):
        if case.leads >= 3 or self.leadsecs > 60:
            return None
        case.leads += 1
        t0 = time.time()
        res.notes.append('lead: %s' % (data,))
        procs = self.procs
        try:
            for k, c in enumerate(case.escalate(data)):
                if time.time() > self.deadline + 100:
                    break
                for r in self.chunk('%s_lead%d_%d' % (tag, case.leads, k), [c]):
                    res.outcomes += r.outcomes
                    res.queries += r.queries
                    res.steps += r.steps
                    if r.status == 'violation':
                        res.status, res.detail = 'violation', r.detail
                        return True
        finally:
            self.procs = procs
            self.leadsecs += time.time() - t0
        return None

    # ---- chunk
    def chunk(self, idx, cases):
        results = [Result(c) for c in cases]
        tags = ['c%s_%d' % (idx, i) for i in range(len(cases))]
        fns = [c.functions(t) for c, t in zip(cases, tags)]
        todo = list(range(len(cases)))
        bcs = {}      # case -> the module of each of its functions
        t = time.time()
        two = getattr(cases[0], 'two', False)

        def build(name, cs):
            """modules of all functions of these cases"""
            if not two:
                bc, err = core.compile_ir(self.w, name, '\n'.join(t for i in cs for _, t, _, _ in fns[i]), self.pch)
                return bc and [bc] * 100, err
            a, err = core.compile_ir(self.w, name, '\n'.join(fns[i][0][1] for i in cs), self.pch)
            if not a:
                return None, err
            b, err = core.compile_ir(self.w, name + '_ce', '\n'.join(fns[i][1][1] for i in cs), self.pch_ce, True, self.ce_src)
            return b and [a, b], err
        bc, err = build('m%s' % idx, todo)
        if bc:
            for i in todo:
                bcs[i] = bc
        else:
            for i in list(todo):
                bc, err = build('m%s_%d' % (idx, i), [i])
                if bc:
                    bcs[i] = bc
                    continue
                todo.remove(i)
                self.no_compile(cases[i], tags[i], err, results[i])
        results[0].build = time.time() - t
        lines = {}
        self.procs = {}
        for i in todo:
            try:
                lines[i] = self.one(cases[i], tags[i], fns[i], bcs[i], results[i])
            except core.ToolError as e:
                results[i].undecided('tool: ' + str(e)[:300])
            except Exception:
                results[i].undecided('tool: ' + traceback.format_exc()[-1600:])
            if results[i].status == 'violation' and not os.environ.get('VERIF_KEEP_GOING'):
                break
        for p in self.procs.values():
            p.close()
        if not any(r.status == 'violation' for r in results):
            tv = time.time()
            if two:
                self.evaluate(idx, cases, tags, fns, {i: l for i, l in lines.items() if l}, results)
            else:
                self.validate(idx, {i: b[0] for i, b in bcs.items()}, fns, lines, results)
            results[0].valsecs = time.time() - tv
        results[0].total = time.time() - t
        return results

    def no_compile(self, case, tag, err, res):
        e = [l for l in err.splitlines() if 'error' in l]
        exe, src, gerr = self.gxx(case, tag + 'v')
        if exe:
            res.undecided('does not compile with clang: ' + (e or [''])[0][:200])
            return
        res.compile_error = (e or [err[-200:]])[0][:300]
        if not case.public:
            # only what the library exposes publicly has to compile
            plain = H.fn('p', ''.join('{ auto r=e_regex::regex<%s>::match(view_t{b,e}); out[0]=r.is_accepted(); }' % H.cstr(p) for p in case.plain_patterns()))
            bc, err = core.compile_ir(self.w, tag + 'p', plain, self.pch)
            if bc:
                res.status = 'nocompile-internal'
                res.notes.append(res.compile_error)
                res.detail = dict(case=case.key, what='the %s matcher does not compile' % getattr(case, 'how', ''), source=open(src).read(), error=gerr[-3000:])
                return
        res.status = 'violation'
        res.detail = dict(case=case.key, what='does not compile: ' + res.compile_error, source=open(src).read(), error=gerr[-3000:])

    def one(self, case, tag, fns, bc, res):
        dec = core.Decider(30000 if self.tier == 'quick' else 200000)
        lines = []
        lens_list = case.lens()
        last = 1000000
        full = False
        for li, lens in enumerate(lens_list):
            tpl = any(isinstance(l, core.Tpl) for l in lens)
            if full and not tpl:
                continue
            t = time.time()
            jobs = ['%s:%s:%d:%d' % (f[0], lens_arg(lens), f[3], case.maxsteps * (1 + sum(l for l in lens if l != 'n') // 20)) for f in fns]
            try:
                ds = [self.symex(bc[k]).job(j) for k, j in enumerate(jobs)]
            except core.ToolError as e:
                if not tpl:
                    raise
                res.notes.append('skipped %s: %s' % (lens, str(e)[:100]))
                break
            res.symsecs += time.time() - t
            err = [d['error'] for d in ds if 'error' in d]
            if err and err[0].startswith('LIMIT') and res.lens:
                res.notes.append('bound: %s %s' % (lens, err[0][:100]))
                full = True
                continue
            if err and err[0].startswith('LIMIT') and tpl:
                res.notes.append('skipped %s: %s' % (lens, err[0][:100]))
                break
            if err:
                res.undecided('%s: %s' % (lens, err[0][:200]))
                break
            nbytes = sum(l for l in lens if l != 'n')
            encs = [core.Enc(d, nbytes, lens) for d in ds]
            for d in ds:
                res.fns.update(d.get('fns', []))
                res.steps += sum(o.get('steps', 0) for o in d['outcomes'])
            try:
                rets = self.decide(case, tag, lens, encs, dec, res)
            except pat.TooLong:
                if not tpl:
                    raise
                res.notes.append('skipped %s: the reference takes too long' % (lens,))
                continue
            if rets is None:
                if res.status == 'ok':
                    full = True
                    continue
                break
            res.templates += tpl
            if not tpl:
                res.lens.append(lens_arg(lens))
            # inputs to validate the encoding with
            if getattr(case, 'two', False):
                lines += self.representatives(lens, encs[1], rets[1])
            elif nbytes and not hasattr(case, 'pick'):
                lines += self.models(case, lens, encs, rets, fns)
            n = max(len(e.outcomes) for e in encs)
            if not tpl:
                if case.too_big(n, self.limits) or case.grows and n * n // last > 2 * self.limits['outcomes']:
                    full = True
                last = n
            if time.time() > self.deadline:
                break
        res.queries += dec.queries
        res.solver += dec.secs
        return lines

    def symex(self, bc):
        if bc not in self.procs or self.procs[bc].p.poll() is not None:
            self.procs[bc] = core.Symex(bc, self.secs, bc.endswith('_ce.bc'))
        return self.procs[bc]

    def representatives(self, lens, enc, rets):
        """an input of every path, with its outputs"""
        r = []
        for pc, out in rets[:40 if self.tier == 'quick' else 400]:
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 3000)
            s.add(pc)
            if s.check() != z3.sat:
                continue
            m = s.model()
            exp = []
            for x in out:
                if z3.is_expr(x):
                    v = m.eval(x, model_completion=True)
                    x = int(z3.is_true(v)) if z3.is_bool(v) else v.as_signed_long()
                exp.append(None if x == 0x55555555 else x)
            r.append((None if lens[0] == 'n' else core.model_bytes(enc, m, lens[0], 0), exp))
        return r

    def models(self, case, lens, encs, rets, fns):
        r = []
        cand = [(fi, pc, out) for fi, l in enumerate(rets) for pc, out in l]
        if not cand:
            return r
        for fi, pc, out in self.rng.sample(cand, min(1, len(cand))):
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 3000)
            s.add(pc)
            if s.check() != z3.sat:
                continue
            m = s.model()
            bufs = []
            first = 0
            for l in lens:
                if l == 'n':
                    bufs.append(None)
                else:
                    bufs.append(core.model_bytes(encs[fi], m, l, first))
                    first += l
            exp = []
            for x in out:
                if z3.is_expr(x):
                    v = m.eval(x, model_completion=True)
                    x = int(z3.is_true(v)) if z3.is_bool(v) else v.as_signed_long()
                exp.append(x)
            r.append((fi, bufs, exp))
        return r

    def validate(self, idx, bcs, fns, lines, results):
        """the encoding against the compiled code, on inputs drawn from explored paths"""
        by = {}
        for i, bc in bcs.items():
            by.setdefault(bc, []).append(i)
        for bc, cs in by.items():
            flat = [f for i in cs for f in fns[i]]
            index = {f[0]: k for k, f in enumerate(flat)}
            exp = []
            for i in cs:
                for fi, bufs, out in lines.get(i) or []:
                    exp.append((i, line_for(index[fns[i][fi][0]], fns[i][fi][3], bufs), out, bufs))
            if not exp:
                continue
            src = bc[:-3] + '_main.cpp'
            open(src, 'w').write(driver_main(flat))
            exe = bc[:-3] + '_exe'
            r = core.sh([core.CLANG, '-std=c++17', '-w', '-O0', '-x', 'c++', src, '-x', 'ir', bc, '-o', exe], timeout=300)
            if r.returncode:
                for i in cs:
                    results[i].notes.append('validation build failed: ' + r.stderr.decode()[-300:])
                continue
            got = run_lines(exe, [e[1] for e in exp], timeout=60)
            if not isinstance(got, list):
                results[cs[0]].notes.append('validation run: %s' % (got[:2],))
                continue
            for (i, _, want, bufs), g in zip(exp, got):
                # entries that the path leaves unwritten stay as the driver filled them
                ok = all(a == b for a, b in zip(want, g) if a is not None)
                if ok:
                    results[i].validated += 1
                    if len(results[i].samples) < 1:
                        results[i].samples.append(dict(input=[None if b is None else repr(b) for b in bufs], output=g[:12]))
                else:
                    results[i].mismatch += 1
                    results[i].undecided('encoding and compiled code differ on %r: %s / %s' % (bufs, want, g))


def _base_bad_all():
    from . import cases
    return cases.Case.bad_all
