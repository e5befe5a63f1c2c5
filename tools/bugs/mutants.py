"""small mechanical changes to /repo/src that compile and pass the tests: mutants.py OUTDIR SEED COUNT [seconds]
writes OUTDIR/<n>.diff for each survivor (tests built with -O0 in a scratch copy)"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
end = time.time() + float(sys.argv[4] if len(sys.argv) > 4 else 1e9)
OPS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'(?<=\w) \+ 1\b', ''), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'),
       (r'(?<= )&&(?= )', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=\()!(?=\w)', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'(?<![\w\'])(\d+)(?![\w\'])', lambda m: str(int(m[1]) + 1)),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bbegin\(\)', 'end()'), (r'\+=', '-='), (r'\+\+', '--'), (r"'\\?(.)'", lambda m: "'%s'" % chr(ord(m[1]) ^ 1) if m[1] not in '\\\'' and chr(ord(m[1]) ^ 1).isalnum() else m[0]),
       (r'^(\s+)(?!return|using|constexpr|auto|const|static|friend|typename|template|requires|public|break|continue)([\w.:>\[\]-]+\s*(=|\+=|-=|\()[^;]*;)$', r'\1;'), (r'^(\s+)(\+\+|--)[\w.]+;$', r'\1;'), (r'\breturn true;', 'return false;'),
       (r'\bhead\.\.\., ', ''), (r'\bif \((?!constexpr)', 'if (true || '), (r'\bif \((?!constexpr)', 'if (false && '), (r'if constexpr \((.*)\)$', r'if constexpr (!(\1))'), (r'\bclear\(\)', 'empty()'), (r'\bstd::true_type\b', 'std::false_type'),
       (r'\bleft\b', 'right'), (r'\bfirst\b', 'second'), (r'\bif constexpr\s*\(', 'if constexpr (false && '), (r'\bcontinue;', 'break;'), (r'\bunsigned\b', 'unsigned char'), (r'\bstd::size_t\b', 'unsigned char')]
src = '/repo/src'
ms = []
for r, _, fs in os.walk(src):
    for f in fs:
        if f.endswith('.hpp'):
            p = os.path.join(r, f)
            ls = open(p).read().split('\n')
            for i, l in enumerate(ls):
                if re.match(r'\s*(//|#|\*|/\*)', l):
                    continue
                for o, n in OPS:
                    for m in re.finditer(o, l):
                        x = l[:m.start()] + re.sub(o, n, l[m.start():], count=1)
                        if x != l:
                            ms.append((p[len(src) + 1:], i, x))
ms = sorted(set(ms))
random.Random(seed).shuffle(ms)
print(len(ms), 'mutants', flush=True)
t = tempfile.mkdtemp(prefix='mut.')
try:
    shutil.copytree(src, t + '/src')
    shutil.copytree('/repo/test', t + '/test')
    for k, (f, i, x) in enumerate(ms[:count]):
        if time.time() > end:
            break
        p = t + '/src/' + f
        old = open(p).read()
        ls = old.split('\n')
        was = ls[i]
        ls[i] = x
        open(p, 'w').write('\n'.join(ls))
        ok = True
        for n in ('utilities', 'heuristics', 'tokenization', 'regex'):
            try:
                ok = (not subprocess.run(['g++', '-std=c++23', '-w', '-O0', '-I' + t + '/src', t + '/test/%s.cpp' % n, '-o', t + '/' + n, '-lCatch2Main', '-lCatch2'], capture_output=True, timeout=200).returncode
                      and not subprocess.run([t + '/' + n], capture_output=True, timeout=30).returncode)
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                break
        if ok:
            d = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', '--relative', src + '/' + f, p], capture_output=True, text=True).stdout
            d = re.sub(r'^(---|\+\+\+) .*', lambda m: '%s %s/src/%s' % (m[1], 'a' if m[1] == '---' else 'b', f), d, flags=re.M)
            d = re.sub(r'^diff --git .*', 'diff --git a/src/%s b/src/%s' % (f, f), d, flags=re.M)
            open('%s/%d-%d.diff' % (out, seed, k), 'w').write(d)
            print(k, f, i + 1, '|', was.strip(), '->', x.strip(), flush=True)
        open(p, 'w').write(old)
finally:
    shutil.rmtree(t)
print('done', flush=True)
