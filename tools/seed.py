#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py...   (or: seed.py --recheck ID...)
A spec defines id, prop, file, old, new (or edits=[(file,old,new)...]), needs, breaks, demo (rust source of main.rs body).
Works in a copy of /repo under /tmp/sw; verifies: original lines, build, tests, demo; writes /verif/seeded/<id>/.
"""
import os, subprocess, sys, json, re, shutil
V='/verif'; SW='/tmp/sw'
ENV=dict(os.environ, CARGO_NET_OFFLINE='true')
DEMO_SH='''#!/bin/bash
# cwd: a checkout of Calcu-rs. exit 0: the property holds on the demonstration's input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
calcu-rs = { path = "$repo" }
serde_json = "1"
[workspace]
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cp "$here/demo.rs" "$d/src/main.rs"
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$d/target}
cd "$d" && cargo build -q --offline 2>"$d/log" || { tail -30 "$d/log"; exit 4; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    if not os.path.isdir(SW+'/.git'):
        shutil.rmtree(SW,ignore_errors=True)
        sh(f'git clone -q /repo {SW}'); sh(f'cp /repo/Cargo.lock {SW}/')
    sh(f'git -C {SW} fetch -q /repo HEAD && git -C {SW} checkout -q -f FETCH_HEAD && git -C {SW} clean -fdq -e target -e Cargo.lock')
    sh(f'cp /repo/Cargo.lock {SW}/')
def tests():
    r=sh(f'cd {SW} && CARGO_TARGET_DIR=/tmp/sw_target cargo test -p calcu-rs -p calcurs_macros --no-fail-fast --offline -- --test-threads 8',env=ENV)
    out=r.stdout+r.stderr
    ok=set(re.findall(r'^test (\S+).* \.\.\. ok$',out,re.M)); bad=set(re.findall(r'^test (\S+).* \.\.\. FAILED$',out,re.M))
    return ok,bad,out
def demo(d,cwd,tgt):
    r=sh(f'cd {cwd} && DEMO_TARGET_DIR={tgt} timeout 300 bash {d}/demo.sh',env=ENV)
    return r.returncode,(r.stdout+r.stderr)[-600:]
PRE="""#![allow(unused)]
use calcu_rs::{prelude::*, expr as e, atom::{Atom, Func, Real, Irrational as Irr}};
/// value at a point
fn ev(e: &Expr, env: &[(&str, f64)]) -> f64 {
    let g = |e: &Expr| ev(e, env);
    match e.atom() {
        Atom::Undef => f64::NAN,
        Atom::Rational(r) => r.numer() as f64 / r.denom() as f64,
        Atom::Irrational(Irr::E) => std::f64::consts::E,
        Atom::Irrational(Irr::PI) => std::f64::consts::PI,
        Atom::Var(v) => { let n = format!("{v}"); env.iter().find(|x| x.0 == n).unwrap().1 }
        Atom::Sum(s) => s.args.iter().map(g).sum(),
        Atom::Prod(p) => p.args.iter().map(g).product(),
        Atom::Pow(p) => g(p.base()).powf(g(p.exponent())),
        Atom::Func(f) => { let x = g(&f.args()[0]); match f {
            Func::Sin(_) => x.sin(), Func::Cos(_) => x.cos(), Func::Tan(_) => x.tan(),
            Func::Sec(_) => 1.0 / x.cos(), Func::Csc(_) => 1.0 / x.sin(), Func::Cot(_) => 1.0 / x.tan(),
            Func::ArcSin(_) => x.asin(), Func::ArcCos(_) => x.acos(), Func::ArcTan(_) => x.atan(),
            Func::ArcSec(_) => (1.0 / x).acos(), Func::ArcCsc(_) => (1.0 / x).asin(),
            Func::ArcCot(_) => std::f64::consts::FRAC_PI_2 - x.atan(),
            Func::Log(b, _) => x.ln() / (match b { Real::Rational(r) => r.numer() as f64 / r.denom() as f64, Real::Irrational(Irr::E) => std::f64::consts::E, _ => std::f64::consts::PI }).ln(),
        } }
    }
}
/// the same value at the point
fn same(a: &Expr, b: &Expr, env: &[(&str, f64)]) {
    let (x, y) = (ev(a, env), ev(b, env));
    assert!((x - y).abs() <= 1e-9 * (1.0 + x.abs()), "{a:?} = {x} but {b:?} = {y} at {env:?}");
}
"""
def go(g):
    if 'demo' not in g: g['demo']=PRE+'fn main() {\n'+g['main'].strip('\n')+'\n}\n'
    sid=g['id']; edits=g.get('edits') or [(g['file'],g['old'],g['new'])]
    fresh()
    for f,o,n in edits:
        p=f'{SW}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(sid,'OLD TEXT COUNT',s.count(o)); return False
        open(p,'w').write(s.replace(o,n))
    diff=sh(f'git -C {SW} diff').stdout
    # removed lines: original?
    mine=orig=0
    for f,_,_ in edits:
        bl=sh(f'git -C {SW} blame -s HEAD -- {f}').stdout.splitlines()
        for h in sh(f'git -C {SW} diff -U0 -- {f}').stdout.splitlines():
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',h)
            if m:
                a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
                for i in range(a,a+n):
                    if bl[i-1].startswith('^') or bl[i-1].startswith('95f07e0'): orig+=1
                    else: mine+=1
    if not orig: print(sid,'NO ORIGINAL LINE CHANGED (mine',mine,')'); return False
    ok,bad,out=tests()
    if bad or len(ok)<26: print(sid,'TESTS',len(ok),bad,out[-1500:] if len(ok)==0 else ''); return False
    d=f'{V}/seeded/{sid}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.sh','w').write(DEMO_SH.replace('cd "$d" && cargo',f'export RUSTFLAGS="{g["rustflags"]}"\ncd "$d" && cargo') if 'rustflags' in g else DEMO_SH); open(d+'/demo.rs','w').write(g['demo'].lstrip())
    json.dump(dict(property=g['prop'],needs=g['needs'],what_it_breaks=g['breaks']),open(d+'/meta.json','w'),indent=1)
    a,ao=demo(d,'/repo','/tmp/demo_t1'); b,bo=demo(d,SW,'/tmp/demo_t2')
    good = a==0 and b not in (0,3,4)
    print(sid,'OK' if good else 'DEMO BAD',f'orig={orig} mine={mine} clean={a} bug={b}',('' if good else ao+'|'+bo), bo.strip()[-160:].replace('\n',' / ') if good else '')
    if not good: shutil.rmtree(d)
    return good
def check(sid,prop=None):
    d=f'{V}/seeded/{sid}'; prop=prop or json.load(open(d+'/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout==''
    r=sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(sid,'APPLY FAILED',r.stderr); return
    try:
        r=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {prop} quick',env=ENV)
    finally: sh('git -C /repo checkout -- .')
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(sid,prop,'CAUGHT' if r.returncode==1 and v and f'property={prop} ' in v[0] else f'missed rc={r.returncode} {(r.stdout+r.stderr)[-300:] if r.returncode>1 else ""}',len(v),flush=True)
if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='--check':
        for s in (a[1:] or sorted(os.listdir(V+'/seeded'))): check(s)
    elif a[0]=='--checkas': check(a[1],a[2])
    else:
        only=[x[1:] for x in a if x.startswith('=')]
        for s in [x for x in a if not x.startswith('=')]:
            g={}; exec(open(s).read(),g)
            for b in g['BUGS']:
                if len(only)==0 or b['id'] in only:
                    try: go(b)
                    except Exception as e: print(b['id'],'EXC',repr(e))
                    sys.stdout.flush()
