#!/usr/bin/env python3
"""Build everything a check needs from /repo's current working tree:
   engine (symx), the harness crate as optimised LLVM IR, and the native replay binary."""
import os, re, subprocess, sys, glob, shutil, time, hashlib, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, '.build')
NIGHTLY = None
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_BUILD_RUSTFLAGS'): ENV.pop(k, None)

class BuildError(Exception): pass

def tool(name):
    home = os.environ.get('RUSTUP_HOME', os.path.expanduser('~/.rustup'))
    c = glob.glob(os.path.join(home, 'toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/*/bin', name)) + glob.glob(os.path.join(home, 'toolchains/*/lib/rustlib/*/bin', name))
    if not c: raise BuildError('no ' + name)
    return c[0]

def run(cmd, cwd, env=None, what=''):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise BuildError('%s failed:\n%s' % (what or cmd[0], p.stdout[-6000:]))
    return p.stdout

STUBS = [r'11BuildHasher8hash_one', r'9hashbrown3map(9make_hash|16make_insert_hash)', r'_4core3fmt5write$', r'_4core9panicking9panic_fmt$', r'hashmap_random_keys', r'4core9panicking18panic_nounwind_fmt']

def stub(src, dst):
    pat = re.compile('|'.join(STUBS))
    d = re.compile(r'^define (.*?)@("?[\w.$]+"?)\((.*)\)(.*)$')
    out, skip, names = [], False, []
    for line in open(src):
        if skip:
            if line.startswith('}'): skip = False
            continue
        if line.startswith('define '):
            m = d.match(line)
            if m and pat.search(m.group(2)):
                pre = re.sub(r'\b(internal|dso_local|hidden|private|linkonce_odr|weak_odr)\b', '', m.group(1))
                params = re.sub(r' %[\w.]+', '', m.group(3))
                out.append('declare %s@%s(%s)\n' % (pre, m.group(2), params))
                names.append(m.group(2))
                skip = True
                continue
        out.append(line)
    open(dst, 'w').writelines(out)
    return names

def engine():
    run(['cargo', 'build', '--release', '--offline', '--quiet'], os.path.join(VERIF, 'engine'), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'engine')), 'engine build')
    return os.path.join(B, 'engine/release/symx')

def lock(crate):
    # a private copy, so that the committed lock file is never rewritten
    dst = os.path.join(VERIF, crate, 'Cargo.lock')
    src = os.path.join(VERIF, 'bin', crate + '.lock')
    if os.path.exists(src) and not os.path.exists(dst): shutil.copy(src, dst)

def harness_names():
    n = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'hsrc/*.rs'))):
        n += re.findall(r'\bh_[cp]\d\d_\w+', open(f).read())
    return sorted(set(n))

def digest():
    """content of everything the crates are built from"""
    h = hashlib.sha256()
    for root in ('/repo', os.path.join(VERIF, 'hsrc'), os.path.join(VERIF, 'shims'), os.path.join(VERIF, 'hsym'), os.path.join(VERIF, 'hreal')):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or f == 'Cargo.lock' and not d == '/repo': continue
                h.update(p.encode() + b'\0' + hashlib.sha256(open(p, 'rb').read()).digest())
    return h.hexdigest()

def fresh(out):
    """cargo goes by modification times: forget its knowledge of the crates under test unless their
    content is the one last built here"""
    f = os.path.join(out, 'content.sha256')
    d = digest()
    if not (os.path.exists(f) and open(f).read() == d):
        for g in glob.glob(os.path.join(out, 'release/.fingerprint/*')):
            if re.match(r'(jmt|pmt|patriecia|serde_hash|hsym|hreal|sha2|sha3|hashbrown)-', os.path.basename(g)): shutil.rmtree(g, ignore_errors=True)
    if os.path.exists(f): os.unlink(f)
    return f, d

def ir(names=None, tag='all'):
    """optimised IR of the given harnesses (all by default) and everything they reach"""
    lock('hsym')
    mark = fresh(os.path.join(B, 'hsym'))
    out = os.path.join(B, 'hsym')
    deps = os.path.join(out, 'release/deps')
    for f in glob.glob(os.path.join(deps, '*.bc')): os.unlink(f)
    for f in glob.glob(os.path.join(deps, '*hsym*')): os.unlink(f)
    for f in glob.glob(os.path.join(out, 'release/.fingerprint/hsym-*')): shutil.rmtree(f)
    run(['cargo', 'rustc', '--release', '--offline', '--quiet', '--', '-C', 'save-temps'], os.path.join(VERIF, 'hsym'), dict(ENV, CARGO_TARGET_DIR=out), 'symbolic harness build')
    bcs = glob.glob(os.path.join(deps, 'hsym*.lto.after-restriction.bc'))
    if len(bcs) != 1: raise BuildError('bitcode not found: %r' % bcs)
    w = os.path.join(B, 'ir')
    os.makedirs(w, exist_ok=True)
    api = '-internalize-public-api-list=' + ','.join(names or harness_names())
    opt, dis = tool('opt'), tool('llvm-dis')
    run([opt, '-passes=internalize,globaldce', api, bcs[0], '-o', w + '/a.bc'], w, what='opt internalize')
    run([dis, w + '/a.bc', '-o', w + '/a.ll'], w, what='llvm-dis')
    stubbed = stub(w + '/a.ll', w + '/b.ll')
    run([opt, '-passes=internalize,globaldce,default<O2>,globaldce', '-vectorize-loops=false', '-vectorize-slp=false', '-strip-debug', api, w + '/b.ll', '-S', '-o', w + '/' + tag + '.ll'], w, what='opt O2')
    for f in glob.glob(os.path.join(deps, '*.bc')) + glob.glob(os.path.join(deps, '*.o')) + [w + '/a.bc', w + '/a.ll', w + '/b.ll']:
        if os.path.exists(f): os.unlink(f)
    open(mark[0], 'w').write(mark[1])
    return w + '/' + tag + '.ll', stubbed

def real():
    lock('hreal')
    mark = fresh(os.path.join(B, 'hreal'))
    run(['cargo', 'build', '--release', '--offline', '--quiet'], os.path.join(VERIF, 'hreal'), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'hreal')), 'native replay build')
    open(mark[0], 'w').write(mark[1])
    return os.path.join(B, 'hreal/release/hreal')

def all_(names=None, tag='all'):
    import concurrent.futures as cf
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(3) as ex:
            e, i, r = ex.submit(engine), ex.submit(ir, names, tag), ex.submit(real)
            return e.result(), i.result()[0], r.result()

if __name__ == '__main__':
    t = time.time()
    try: print(all_(harness_names()[:1], 'setup') if len(sys.argv) < 2 else all_())
    except BuildError as e: print(e); sys.exit(2)
    print('build %.1fs' % (time.time() - t))
