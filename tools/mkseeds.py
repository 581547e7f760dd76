#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py (EDITS, META) and tools/seeds/<id>.rs.
Usage: mkseeds.py [ID...]"""
import os, sys, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '3347b8b'
DEMO = r'''#!/bin/bash
# Runs a small program against the crate in the current directory.
# Exit 0: the behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUST_BACKTRACE=0
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/kit/." "$t/"
sed -i "s#@REPO@#$repo#" "$t/Cargo.toml"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$t/target}
cd "$t" && cargo build --offline --locked -q 2> build.log || { tail -30 build.log; echo "the demonstration does not build"; exit 1; }
timeout -k 5 150 "$CARGO_TARGET_DIR/debug/demo"
'''
MAIN = r'''#![allow(dead_code, unused_imports)]
mod dh;
mod fx;
mod ov;
mod rl;
mod rs;
use dh::*;
use fx::*;
use ov::*;
use rl::*;
use rs::*;
#[global_allocator]
static A: vcore::alloc::Counting = vcore::alloc::Counting;

@DEMO@

fn main() {
    // a scenario that could not be carried out is tried again
    for i in 0..3 {
        let r = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
            clock::start();
            run(demo())
        });
        match r.unwrap().join() {
            Ok(Ok(_)) => {
                println!("holds");
                std::process::exit(0)
            }
            Ok(Err(Fail::Viol(e))) => println!("attempt {i}: broken: {e}"),
            Ok(Err(Fail::Harness(e))) => println!("attempt {i}: not carried out: {e}"),
            Err(_) => println!("attempt {i}: panic"),
        }
    }
    std::process::exit(1)
}
'''
def rs():
    src = open(f'{V}/harness/src/p/r1.rs').read()
    head = 'use crate::fx::*;\nuse everscale_network::{adnl, rldp, QuerySubscriber};\nuse std::net::{Ipv4Addr, SocketAddrV4};\nuse std::sync::{Arc, Mutex};\n'
    a = src.index('/// A started node with RLDP'); b = src.index('// ------------------------------------------------------------------ R01')
    return head + src[a:b]
def make(i):
    g = {}
    exec(open(f'{V}/tools/seeds/{i}.py').read(), g)
    d = f'{V}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/kit/src')
    # the patch
    files = {}
    for f, old, new in g['EDITS']:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        files[f] = s.replace(old, new)
    patch = ''
    for f, s in files.items():
        open('/tmp/seed_new', 'w').write(s)
        p = subprocess.run(['git', 'diff', '--no-index', '--', '/repo/' + f, '/tmp/seed_new'], capture_output=True, text=True).stdout.splitlines(True)
        base = subprocess.run(['git', '-C', '/repo', 'show', f'{BASE}:{f}'], capture_output=True, text=True).stdout.splitlines()
        base = set(x.strip() for x in base)
        for l in p[4:]:
            if l.startswith('-') and l[1:].strip() and l[1:].strip() not in base:
                print(i, 'WARNING: not an original line:', l.rstrip())
        patch += f'diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n' + ''.join(p[4:])
    open(d + '/patch.diff', 'w').write(patch)
    json.dump(g['META'], open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    shutil.copytree(f'{V}/harness/core', d + '/kit/core', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    for m in ['fx', 'rl', 'dh', 'ov']:
        shutil.copy(f'{V}/harness/src/{m}.rs', d + '/kit/src/')
    open(d + '/kit/src/rs.rs', 'w').write(rs())
    open(d + '/kit/src/main.rs', 'w').write(MAIN.replace('@DEMO@', open(f'{V}/tools/seeds/{i}.rs').read()))
    c = open(f'{V}/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "@REPO@"').replace('name = "vharness"\npath', 'name = "demo"\npath')
    open(d + '/kit/Cargo.toml', 'w').write(c)
    shutil.copy(f'{V}/harness/Cargo.lock', d + '/kit/Cargo.lock')
ids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(f'{V}/tools/seeds/*.py'))
for i in ids:
    make(i)
