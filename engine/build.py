"""Mechanical extraction: /repo/src/*.c -> one LLVM module (SSA), on every run, from the
current working tree, with the flags /repo's own Makefile computes.

What the extraction drops: llvm.dbg intrinsics, instruction attributes (nsw/nuw/inbounds,
alignment hints) and the optimiser (-O0; the only pass is mem2reg).  Nothing is rewritten by hand.
"""
import os, re, shutil, subprocess, sys, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ISO_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'

# name -> make variable overrides (defaults are the Makefile's own)
CONFIGS = {
    'default': {},
    'leak': {'EXTRA': '-DLEAK_DETECTOR=1 -DMEM_USAGE=1'},
    'tag': {'MEMORY_TAGGING': '-DMEMORY_TAGGING=1'},
    'spin': {'USE_SPINLOCK': '-DUSE_SPINLOCK=1'},
    'sanity': {'ALLOC_SANITY': '-DALLOC_SANITY=1'},
    'libc': {'MEMCPY_SANITY': '-DMEMCPY_SANITY=1', 'MEMSET_SANITY': '-DMEMSET_SANITY=1'},
    'strong': {'STRONG_SIZE_ISOLATION': '-DSTRONG_SIZE_ISOLATION=1'},
    'sanitize': {'SANITIZE_CHUNKS': '-DSANITIZE_CHUNKS=1'},
    'verify': {'VERIFY_FREE_BIT_SLOTS': '-DVERIFY_FREE_BIT_SLOTS=1'},
    'guard': {'BIG_ZONE_META_DATA_GUARD': '-DBIG_ZONE_META_DATA_GUARD=1', 'BIG_ZONE_GUARD': '-DBIG_ZONE_GUARD=1',
              'EXTRA': '-DPROTECT_FREE_BIG_ZONES=1'},   # the Makefile defines this switch but never passes it on
    'uaf': {'UAF_PTR_PAGE': '-DUAF_PTR_PAGE=1'},
    'zero0': {'NO_ZERO_ALLOCATIONS': '-DNO_ZERO_ALLOCATIONS=0'},
    'prof': {'HEAP_PROFILER': '-DHEAP_PROFILER=1'},
    'permrealloc': {'PERM_FREE_REALLOC': '-DPERM_FREE_REALLOC=1'},
    'abortnull': {'ABORT_ON_NULL': '-DABORT_ON_NULL=1'},
    'small': {'STARTUP_MEM_USAGE': '-DSMALL_MEM_STARTUP=1'},
    'dtor': {'ISO_DTOR_CLEANUP': '-DISO_DTOR_CLEANUP=1'},
    'nocanary': {'DISABLE_CANARY': '-DDISABLE_CANARY=1'},
    'hook': {'EXTRA': '-DMALLOC_HOOK=1'},
    # with the C++ front end; exceptions do not propagate out of the allocator
    'nothread': {'THREAD_SUPPORT': '-DTHREAD_SUPPORT=0'},
}


CPP = ('hook',)


class BuildError(Exception):
    pass


def flags(cfg, which='CFLAGS'):
    mk = os.path.join(HERE, 'flags.mk')
    ov = {k: v for k, v in CONFIGS[cfg].items() if k != 'EXTRA'}
    args = ['make', '-s', '-f', mk, 'pf', 'CC=clang', 'CXX=clang++'] + ['%s=%s' % kv for kv in ov.items()]
    r = subprocess.run(args, cwd=REPO, capture_output=True, text=True)
    m = re.search(r'^%s (.*)$' % which, r.stdout, re.M)
    if not m:
        raise BuildError('cannot read Makefile flags: ' + r.stderr[:400])
    fl = m.group(1).split()
    fl = [f for f in fl if not f.startswith('-flto') and f not in ('-Werror',)]
    return fl + CONFIGS[cfg].get('EXTRA', '').split()


def build_ir(cfg='default', keep=None):
    """returns the text of the linked, mem2reg'd module"""
    fl = flags(cfg)
    tmp = tempfile.mkdtemp(prefix='isoir.')
    try:
        srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.c'))
        ps = []
        for s in srcs:
            o = os.path.join(tmp, s[:-2] + '.ll')
            ps.append((s, o, subprocess.Popen(
                ['clang'] + fl + ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
                                  '-fno-discard-value-names', '-w', '-S', '-emit-llvm', 'src/' + s, '-o', o],
                cwd=REPO, stderr=subprocess.PIPE, text=True)))
        if cfg in CPP:
            cfl = [f for f in flags(cfg, 'CXXFLAGS') if f != '-Werror']
            for s in sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp')):
                o = os.path.join(tmp, s + '.ll')
                ps.append((s, o, subprocess.Popen(
                    ['clang++'] + cfl + ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
                                         '-fno-discard-value-names', '-w', '-S', '-emit-llvm', 'src/' + s, '-o', o],
                    cwd=REPO, stderr=subprocess.PIPE, text=True)))
        for s, o, p in ps:
            e = p.communicate()[1]
            if p.returncode:
                raise BuildError('clang %s: %s' % (s, e[:2000]))
        allb = os.path.join(tmp, 'all.ll')
        r = subprocess.run([LLVM + 'llvm-link', '-S'] + [o for _, o, _ in ps] + ['-o', allb], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[:2000])
        out = os.path.join(tmp, 'all.o.ll')
        r = subprocess.run([LLVM + 'opt', '-passes=' + ('lowerinvoke,function(mem2reg,simplifycfg)' if cfg in CPP else 'mem2reg'), '-S', allb, '-o', out], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt: ' + r.stderr[:2000])
        txt = open(out).read()
        if keep:
            open(keep, 'w').write(txt)
        return txt
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tree_hash():
    h = hashlib.sha256()
    for d in ('src', 'include'):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


if __name__ == '__main__':
    import time
    t = time.time()
    s = build_ir(sys.argv[1] if len(sys.argv) > 1 else 'default', sys.argv[2] if len(sys.argv) > 2 else None)
    print(len(s), time.time() - t)
