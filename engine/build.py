"""Compiles the code of /repo together with the contract files, for the verifier and natively."""
import os, subprocess, hashlib, sys, json, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
WORK = os.environ.get('VP_WORK') or '/var/tmp/vpwork'
INC = ['-I' + os.path.join(VERIF, 'contracts'), '-I' + REPO + '/export', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO, '-I/opt/vp/compat/include', '-I/usr/include/hdf5/serial', '-I/usr/include/Imath', '-I/usr/include/OpenEXR']
STD = ['-std=gnu++14', '-w', '-DBOOST_TIMER_ENABLE_DEPRECATED']
SYM = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-gline-tables-only', '-fno-access-control', '-DVC_SYM', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-strict-aliasing', '-mno-sse3']
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
class BuildError(Exception): pass
def run(cmd):
    rc, out = sh(cmd)
    if rc: raise BuildError(' '.join(cmd) + '\n' + out[-6000:])
    return out
def tool():
    """the IR dumper"""
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(WORK, 'tool'); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'irdump-' + h)
    if not os.path.exists(exe):
        fl = subprocess.check_output('llvm-config-18 --cxxflags | sed s/-fno-exceptions//; llvm-config-18 --ldflags --libs', shell=True, text=True).split()
        cx = [x for x in fl if not x.startswith(('-L', '-l'))]; ld = [x for x in fl if x.startswith(('-L', '-l'))]
        run(['clang++-18', '-O1', src, '-o', exe + '.tmp'] + cx + ['-fexceptions'] + ld)
        os.rename(exe + '.tmp', exe)
    return exe
def sym(harness, srcs, out, defs=()):
    """harness: contract file stem; srcs: files of /repo/src linked in; -> path of the dumped module"""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(out, exist_ok=True)
    jobs = [(os.path.join(VERIF, 'contracts', harness + '.cpp'), harness)] + [(os.path.join(REPO, 'src', x + '.cpp'), x) for x in srcs]
    def one(j):
        bc = os.path.join(out, j[1] + '.bc')
        run(['clang++-18'] + STD + SYM + INC + list(defs) + [j[0], '-o', bc]); return bc
    with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, jobs))
    bc = os.path.join(out, 'all.bc')
    run(['llvm-link-18'] + bcs + ['-o', bc])
    js = os.path.join(out, harness + '.json')
    with open(js, 'w') as f:
        p = subprocess.run([tool(), bc], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    return js
NAT = ['-O1', '-g1', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,function,null', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-ffp-contract=off']
LIBS = ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5', '-lboost_system', '-lboost_thread', '-lboost_filesystem', '-lboost_regex', '-lboost_program_options', '-lImath-3_1', '-lIex-3_1', '-ldl', '-lpthread', '-lz', '-lm']
ALLSRC = None
def allsrc():
    return sorted(f[:-4] for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
def native(harnesses, srcs, out, flags=NAT, name='runner', defs=()):
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(out, exist_ok=True)
    jobs = [(os.path.join(VERIF, 'contracts', h + '.cpp'), h) for h in harnesses] + [(os.path.join(VERIF, 'contracts', 'vc_native.cpp'), 'vc_native')] + [(os.path.join(REPO, 'src', x + '.cpp'), 's_' + x) for x in srcs]
    def one(j):
        o = os.path.join(out, j[1] + '.o')
        run(['clang++-18'] + STD + flags + INC + list(defs) + ['-c', j[0], '-o', o]); return o
    with ThreadPoolExecutor(8) as ex: os_ = list(ex.map(one, jobs))
    exe = os.path.join(out, name)
    # library functions no linked source defines are never reached by these contracts: they become traps
    und, dfd = set(), set()
    for o in os_:
        for l in subprocess.check_output(['nm', o], text=True).splitlines():
            f = l.split()
            if len(f) == 2 and f[0] == 'U': und.add(f[1])
            elif len(f) == 3: dfd.add(f[2])
    stubs = sorted(x for x in und - dfd if re.search('Field3D|Alembic', x) and not x.startswith('__asan'))
    if stubs:
        sf = os.path.join(out, 'stubs.s')
        open(sf, 'w').write('.text\n' + ''.join('.globl %s\n.type %s,@function\n%s:\n ud2\n' % (x, x, x) for x in stubs))
        run(['clang++-18', '-c', sf, '-o', sf + '.o']); os_.append(sf + '.o')
    run(['clang++-18'] + flags + os_ + ['-o', exe] + LIBS)
    return exe
