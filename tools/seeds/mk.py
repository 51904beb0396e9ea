#!/usr/bin/env python3
"""Builds and validates planted bugs.  mk.py [ids...]: reads specs from *.seed.py beside it, writes
/verif/seeded/<id>/ after confirming (scratch copy of /repo under /tmp): builds, stable tests pass,
demo exits 0 without and nonzero with the patch."""
import os, re, sys, subprocess, shutil, json, glob
HERE=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'
SEEDS={}
def seed(id, prop, file, reps, needs, breaks, main, features='["use-std","test-utils"]', extra='', kind='run', dirs=(), rustflags=''):
    SEEDS[id]=dict(prop=prop,file=file,reps=reps,needs=needs,breaks=breaks,main=main,features=features,extra=extra,kind=kind,dirs=dirs,rustflags=rustflags)
PRE=open(HERE+'/prelude.rs').read()
for f in sorted(glob.glob(HERE+'/*.seed.py')): exec(open(f).read())
CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
postcard-rpc = { path = "@REPO@/source/postcard-rpc", features = %s }
postcard = { version = "1.0.10", features = ["use-std"] }
postcard-schema = { version = "0.2.1", features = ["derive"] }
serde = { version = "1.0.192", features = ["derive"] }
tokio = { version = "1.33.0", features = ["sync", "rt", "rt-multi-thread", "macros", "io-util", "time"] }
%s
'''
DEMO='''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds in the demonstrated scenario.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cp -r "$here/." "$work/"
mkdir -p "$work/src"
mv "$work/main.rs" "$work/src/main.rs"
sed "s|@REPO@|$repo|" "$work/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work" || exit 9
export CARGO_TARGET_DIR=$work/target RUSTFLAGS=-Awarnings
unset CARGO_BUILD_TARGET
timeout 290 cargo run --offline -q
'''
# kind 'refused': the program as such builds, and with the feature 'bad' it must not
REFUSED=DEMO.replace('timeout 290 cargo run --offline -q\n','''timeout 140 cargo build --offline -q || exit 1
if timeout 140 cargo build --offline -q --features bad 2>"$work/err"; then echo "the inconsistent definition is accepted"; exit 1; fi
''')
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def build(id, s):
    work='/tmp/seed_'+id
    sh(f'rm -rf {work}')
    sh(f'mkdir {work} && cd /repo && git archive HEAD | tar x -C {work} && cd {work} && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm x')
    files=s['file'] if isinstance(s['file'],list) else [s['file']]
    for f in files:
        p=f'{work}/source/postcard-rpc/src/{f}'
        t=open(p).read()
        for r in s['reps']:
            if len(r)==3:
                if r[0]!=f: continue
                a,b=r[1:]
            else: a,b=r
            if t.count(a)!=1: print(id,'replacement count',t.count(a),a[:60]); return False
            t=t.replace(a,b)
        open(p,'w').write(t)
    diff=sh(f'cd {work} && git diff').stdout
    d=f'{OUT}/{id}'; sh(f'rm -rf {d}'); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(REFUSED if s['kind']=='refused' else DEMO.replace('RUSTFLAGS=-Awarnings','RUSTFLAGS="-Awarnings '+s['rustflags']+'"') if s['rustflags'] else DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(s['main'].replace('//PRELUDE',PRE))
    open(d+'/Cargo.toml.in','w').write(CARGO%(s['features'],s['extra'])+('[features]\nbad = []\n' if s['kind']=='refused' else ''))
    for src,dst in s['dirs']:
        # device models without the scheduler hooks
        shutil.copytree(src,f'{d}/{dst}')
        for r,_,fs in os.walk(f'{d}/{dst}'):
            for f in fs:
                q=os.path.join(r,f); t=open(q).read().split('\n')
                t=[l.replace('vp_rt::spawn("page", f)','tokio::task::spawn_local(f)').replace('vp-rt = { path = "../../vp-rt" }','tokio = { version = "1", features = ["rt"] }') for l in t]
                t=[l for l in t if not re.search(r'^\s*vp_rt::|^vp-rt',l)]
                t='\n'.join(t).replace('vp_rt::deviate(2, "write later")','0').replace('vp_rt::deviate(4, "short write")','1')
                open(q,'w').write(t)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(work)
    return True
def demo(id):
    r=subprocess.run(['bash',f'{OUT}/{id}/demo.sh'],cwd='/repo',capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-1500:]
def validate(id):
    rc,o=demo(id)
    if rc!=0: print(id,'demo fails on unchanged tree',rc,o); return False
    try:
        r=sh(f'git -C /repo apply {OUT}/{id}/patch.diff')
        if r.returncode: print(id,'apply',r.stderr); return False
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: print(id,'build',r.stderr[-1500:]); return False
        sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        t=json.load(open('/tmp/seedtest.json'))
        rc,o=demo(id)
        if rc==0: print(id,'demo passes with patch'); return False
        print(id,'tests',{k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items() if k in('passed','failed')},'demo rc',rc,o.strip().splitlines()[-3:])
        if len(t['failed']): print(id,'TESTS FAIL',t['failed']); return False
        return True
    finally:
        sh('git -C /repo checkout -- .')
if __name__=='__main__':
    ids=sys.argv[1:] or [i for i in SEEDS if not os.path.exists(f'{OUT}/{i}/ok')]
    for i in ids:
        if build(i,SEEDS[i]):
            ok=validate(i); print(i,'OK' if ok else 'REJECTED',flush=True)
            if not ok: sh(f'rm -rf /tmp/rej_{i}; mv {OUT}/{i} /tmp/rej_{i}')
