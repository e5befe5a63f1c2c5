import sys,os,subprocess,json,shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import importlib
mod=sys.argv[1] if len(sys.argv)>1 and sys.argv[1].startswith('defs') else 'defs'
B=importlib.import_module(mod).B
want=[a for a in sys.argv[1:] if not a.startswith('defs')]
T='/tmp/b/tree'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
if not os.path.exists(T): sh(f'mkdir -p /tmp/b; cp -a /repo {T}; cd {T} && rm -rf {T}/_build && CXX=g++ CC=gcc meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false')
sh(f'cd {T} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
for b in B:
    if want and b['id'] not in want: continue
    sh(f'cd {T} && git checkout -q -- .')
    ok=True
    for f,o,n in b['edits']:
        p=f'{T}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'EDIT',f,s.count(o)); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    patch=sh(f'cd {T} && git diff').stdout
    # originals: removed lines must be blamed to base
    d=f'/verif/seeded/{b["id"]}'
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(patch)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1); 
    open(d+'/demo.cpp','w').write('''#include <e_regex.hpp>
#include <cstdio>
#include <string>
#include <string_view>
'''+b['pre']+'''
static int failed = 0;
static std::string_view sv(const std::string& s) { return s; }
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("failed: %s\\n", #__VA_ARGS__); failed = 1; } } while (0)

int main()
{
    '''+b['demo'].strip()+'''
    return failed;
}
''')
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run in the repository's root: exit 0 if it behaves, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -std=c++23 -w {b['flags']} -I"$PWD/src" -o "$out/demo" "$here/demo.cpp" || exit 3
timeout 60 "$out/demo"
''')
    os.chmod(d+'/demo.sh',0o755)
    r1=sh(f'cd {T} && bash {d}/demo.sh')
    r0=sh(f'cd /repo && bash {d}/demo.sh')
    r=sh(f'cd {T} && nice ninja -C _build 2>&1 | tail -5')
    tests='?'
    bad=[]
    if 'FAILED' in r.stdout or 'error' in r.stdout: bad.append('BUILD '+r.stdout[-300:])
    else:
        for t in json.loads(sh(f'cd {T} && meson introspect --tests _build').stdout):
            q=sh(' '.join(t['cmd']),timeout=120)
            if q.returncode: bad.append(t['name']+q.stdout[-600:])
    print(b['id'],'patched',r1.returncode,'clean',r0.returncode,'TESTS', 'ok' if not bad else bad, (r1.stdout+r1.stderr)[-200:].replace('\n',' ') if r1.returncode!=1 else '', (r0.stdout+r0.stderr)[-400:] if r0.returncode else '',flush=True)
sh(f'cd {T} && git checkout -q -- .')
