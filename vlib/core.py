"""Compile harnesses over /repo's current sources to LLVM IR, run the symbolic executor on them, turn
the outcome into z3 terms, decide obligations, replay counterexamples natively."""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time

import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EREGEX_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
GXX = '/usr/bin/g++'
SYMEX = os.path.join(VERIF, 'engine/build/symex')
IRFLAGS = ['-std=c++23', '-I' + REPO + '/src', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-finite-loops',
           '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-w', '-ftemplate-depth=4000',
           '-fconstexpr-steps=50000000', '-fbracket-depth=2000']
NPROC = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


class Work:
    """scratch directory of one check run"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='eregexv.')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)


def cstr(s):
    """C++ string literal"""
    out = '"'
    for c in s:
        o = ord(c)
        if c in '"\\?':
            out += '\\' + c
        elif 32 <= o < 127:
            out += c
        else:
            out += '\\%03o' % (o & 255)
    return out + '"'


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, 124, e.stdout or b'', (e.stderr or b'') + b'timeout')
        return r


# ---------------------------------------------------------------- building
def ensure_engine():
    r = sh(['make', '-s', '-C', os.path.join(VERIF, 'engine')])
    if r.returncode:
        raise ToolError('engine does not build: ' + r.stderr.decode()[-2000:])


# classes that many patterns contain: what they instantiate is kept with the precompiled header (only to save time)
WARM = ['.', '\\D', '\\W', '\\S', '[^a]', '[^b]', '[^a]*b']


# the module that stands for constant evaluation: what is undefined traps
CEFLAGS = ['-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fsanitize-trap=all']


def flags(ce, src):
    return [f if f != '-I' + REPO + '/src' or not src else '-I' + src for f in IRFLAGS] + (CEFLAGS if ce else [])


def consteval_source(work):
    """a copy of the sources in which every question whether this is constant evaluation is answered with yes"""
    d = work.path('ce_src')
    shutil.copytree(REPO + '/src', d)
    n = 0
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            t = open(p, encoding='latin-1').read()
            u = re.sub(r'\bif\s*(?:!|\bnot\b)\s*consteval\b', 'if (false)', t)
            u = re.sub(r'\bif\s+consteval\b', 'if (true)', u)
            u = re.sub(r'(?:\b\w+\s*::\s*|::\s*)*\b(?:__builtin_|__)?is_constant_evaluated\s*\(\s*\)', 'true', u)
            if u != t:
                n += 1
                open(p, 'w', encoding='latin-1').write(u)
    return d, n


def make_pch(work, header_text, name='pre.hpp', ce=False, src=None):
    h = work.path(name)
    r = None
    for warm in (True, False):
        with open(h, 'w') as f:
            f.write(header_text)
            if warm:
                for p in WARM:
                    f.write('\nstatic_assert(sizeof(e_regex::regex<%s>) > 0);' % cstr(p))
        r = sh([CLANG] + flags(ce, src) + ['-fpch-instantiate-templates', '-x', 'c++-header', h, '-o', h + '.pch'])
        if not r.returncode:
            return h
    raise ToolError('the library headers do not compile:\n' + r.stderr.decode()[-3000:])


def compile_ir(work, name, body, pch, ce=False, src=None):
    src = work.path(name + '.cpp')
    open(src, 'w').write(body)
    bc = work.path(name + '.bc')
    r = sh([CLANG] + flags(ce, src) + ['-include-pch', pch + '.pch', '-c', '-emit-llvm', src, '-o', bc], timeout=300)
    if os.environ.get('VERIF_MEM'):
        open(os.environ['VERIF_MEM'], 'a').write('%s %d MB (most so far) rc %d\n' % (name, resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss >> 10, r.returncode))
    if r.returncode:
        return None, r.stderr.decode(errors='replace')
    return bc, ''


def run_symex(bc, jobs, secs=60, timeout=None):
    env = dict(os.environ, SYMEX_SECS=str(secs))
    r = sh([SYMEX, bc] + jobs, timeout=timeout or (secs * len(jobs) + 60), env=env)
    out = []
    for l in r.stdout.decode().splitlines():
        out.append(json.loads(l))
    if len(out) != len(jobs):
        raise ToolError('symex failed on %s %s: rc %s %s' % (bc, jobs, r.returncode, r.stderr.decode(errors='replace')[-500:]))
    return out


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


class Symex:
    """a running symbolic executor on one module"""

    def __init__(self, bc, secs, strict=False):
        self.secs = secs
        self.bc = bc
        self.p = subprocess.Popen([SYMEX, bc, '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, SYMEX_SECS=str(secs), **({'SYMEX_STRICT': '1'} if strict else {})), preexec_fn=_limit_memory)

    def job(self, spec):
        try:
            self.p.stdin.write((spec + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            self.p.wait()
            raise ToolError('the symbolic executor ended on %s' % spec)
        t = time.time()
        buf = b''
        fd = self.p.stdout.fileno()
        while not buf.endswith(b'\n'):
            r, _, _ = select.select([fd], [], [], 5)
            if r:
                x = os.read(fd, 1 << 20)
                if not x:
                    self.p.wait()
                    raise ToolError('the symbolic executor ended on %s' % spec)
                buf += x
            elif time.time() - t > self.secs + 120:
                self.close()
                raise ToolError('the symbolic executor does not answer on %s' % spec)
        return json.loads(buf)

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


# ---------------------------------------------------------------- decoding
class Tpl(int):
    """a length with some of the bytes known: Tpl([97, None, 98]) has one symbolic byte"""

    def __new__(cls, known):
        r = int.__new__(cls, len(known))
        r.known = tuple(known)
        return r

    def __str__(self):
        return '%d@%s' % (len(self.known), ''.join('??' if k is None else '%02x' % k for k in self.known))

    __repr__ = __str__


class Enc:
    """the outcomes of one job as z3 terms"""

    def __init__(self, d, nbytes, lens=()):
        self.d = d
        self.vars = {i: z3.BitVec('b%d' % i, 8) for i in range(nbytes)}
        first = 0
        for l in lens:
            if l == 'n':
                continue
            for i, k in enumerate(getattr(l, 'known', ())):
                if k is not None:
                    self.vars[first + i] = z3.BitVecVal(k, 8)
            first += l
        self.t = {}
        for n in d['nodes']:
            self.t[n[0]] = self.node(n)
        self.outcomes = d['outcomes']

    def var(self, i):
        if i not in self.vars:
            self.vars[i] = z3.BitVec('o%d' % i, 8)
        return self.vars[i]

    def node(self, n):
        _, op, w, aux = n[:4]
        a = [self.t[x] for x in n[4:]]
        B = w == 1

        def bv(x):
            return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(x) else x
        if op == 'const':
            return z3.BoolVal(bool(aux)) if B else z3.BitVecVal(aux, w)
        if op == 'var':
            return self.var(aux)
        if op == 'undef':
            return z3.Bool('u') if B else z3.BitVec('u%d' % w, w)
        if op in ('and', 'or', 'xor') and B:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](*a)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'eq':
            return a[0] == a[1]
        if op in ('ult', 'ule', 'slt', 'sle'):
            x, y = bv(a[0]), bv(a[1])
            return {'ult': z3.ULT, 'ule': z3.ULE, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q}[op](x, y)
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'zext':
            x = bv(a[0])
            return z3.ZeroExt(w - x.size(), x)
        if op == 'sext':
            x = bv(a[0])
            return z3.SignExt(w - x.size(), x)
        if op == 'extract':
            x = z3.Extract(aux + w - 1, aux, bv(a[0]))
            return (x == 1) if B else x
        if op == 'concat':
            return z3.Concat(bv(a[0]), bv(a[1]))
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'udiv': z3.UDiv,
             'sdiv': lambda x, y: x / y, 'urem': z3.URem, 'srem': z3.SRem, 'shl': lambda x, y: x << y,
             'lshr': z3.LShR, 'ashr': lambda x, y: x >> y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y,
             'xor': lambda x, y: x ^ y}[op]
        return f(bv(a[0]), bv(a[1]))

    def pc(self, o):
        return self.t[o['pc']]

    def out(self, o):
        return [(self.t[x['e']] if isinstance(x, dict) else x) for x in o['out']]


class Decider:
    """z3 with a time limit and a query log"""

    def __init__(self, timeout_ms=60000):
        self.timeout = timeout_ms
        self.queries = 0
        self.secs = 0.0
        self.unknown = 0

    def check(self, *conds):
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.timeout)
        for c in conds:
            s.add(c)
        t = time.time()
        r = s.check()
        self.secs += time.time() - t
        self.queries += 1
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        self.unknown += 1
        return 'unknown', None


def model_bytes(enc, model, n, first=0):
    r = bytearray()
    for i in range(first, first + n):
        v = model.eval(enc.var(i), model_completion=True)
        r.append(v.as_long())
    return bytes(r)


def model_around(enc, model, buf=0):
    """bytes outside the view that the encoding reads: {offset: value}"""
    r = {}
    for i, v in enc.vars.items():
        if 1000 + 400 * buf <= i < 1400 + 400 * buf:
            r[i - 1000 - 400 * buf - 64] = model.eval(v, model_completion=True).as_long()
    return r


# ---------------------------------------------------------------- native replay
MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
// argv: function index, nout, then for each buffer hex before/content/after ("-" = empty, "n" = null view)
static std::string unhex(const char* s){ std::string r; if(*s=='-') return r; while(*s){ char t[3]={s[0],s[1],0}; r+=(char)strtol(t,0,16); s+=2;} return r; }
int main(int argc,char**argv){
  int k=atoi(argv[1]), nout=atoi(argv[2]);
  static int out[4096]; memset(out,0x55,sizeof out);
  std::vector<std::string> bufs; std::vector<const char*> p;
  for(int a=3;a<argc;a+=3){
    if(argv[a+1][0]=='n'){ p.push_back(nullptr); p.push_back(nullptr); continue; }
    std::string x=unhex(argv[a]),y=unhex(argv[a+1]),z=unhex(argv[a+2]);
    char* m=(char*)malloc(x.size()+y.size()+z.size()+1); memcpy(m,x.data(),x.size()); memcpy(m+x.size(),y.data(),y.size()); memcpy(m+x.size()+y.size(),z.data(),z.size());
    p.push_back(m+x.size()); p.push_back(m+x.size()+y.size());
  }
  call(k,p.data(),(int)p.size(),out);
  for(int i=0;i<nout;i++) printf("%d ",out[i]);
  printf("\n");
}
'''


class Native:
    """native executables of harness functions; functions are identified by name"""

    def __init__(self, work, header, fns):
        """fns: name -> (body text, number of buffers)"""
        self.work = work
        self.header = header
        self.fns = fns
        self.exe = {}

    def build(self, names, opts=('-O1',), cxx=GXX):
        key = (tuple(names), tuple(opts), cxx)
        if key in self.exe:
            return self.exe[key]
        tag = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
        src = self.work.path('n' + tag + '.cpp')
        with open(src, 'w') as f:
            f.write(self.header)
            for n in names:
                f.write(self.fns[n][0] + '\n')
            f.write('static void call(int k,const char**p,int np,int*out){ switch(k){\n')
            for i, n in enumerate(names):
                a = ','.join('p[%d]' % j for j in range(2 * self.fns[n][1]))
                f.write('case %d: %s(%s,out); break;\n' % (i, n, a))
            f.write('}}\n' + MAIN)
        exe = self.work.path('n' + tag)
        extra = ['-ftemplate-depth=4000'] + (['-fconstexpr-steps=50000000', '-fbracket-depth=2000'] if 'clang' in cxx else ['-fconstexpr-ops-limit=500000000'])
        r = sh([cxx, '-std=c++23', '-I' + REPO + '/src', '-w'] + extra + list(opts) + [src, '-o', exe], timeout=400)
        if r.returncode:
            raise ToolError('native build failed: ' + r.stderr.decode(errors='replace')[-1500:])
        self.exe[key] = exe
        return exe

    def run(self, exe, k, nout, bufs, timeout=20):
        """bufs: list of bytes, None (null view) or (before, content, after)"""
        args = [exe, str(k), str(nout)]
        for b in bufs:
            if b is None:
                args += ['-', 'n', '-']
            else:
                if isinstance(b, (bytes, bytearray)):
                    b = (b'', b, b'')
                args += [x.hex() or '-' for x in b]
        r = sh(args, timeout=timeout)
        if r.returncode:
            return ('rc', r.returncode, r.stderr.decode(errors='replace')[-400:])
        return [int(x) for x in r.stdout.split()]
