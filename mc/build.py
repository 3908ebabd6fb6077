#!/usr/bin/env python3
"""Builds a check from /repo's current working tree.

usage: build.py CHECK...   (prints the path of each binary)

The library sources are compiled as they are (plus a forced include for the
time stamp counter); undefined references to system calls, heap and clock
functions in the resulting objects are then renamed to the virtual kernel's.
Everything is keyed by the content of the inputs, so a change of any source
file rebuilds what depends on it."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, 'build'))
DEFS = ['-DDILL_THREADS=1', '-DDILL_PTHREAD=1', '-DDILL_SOCKETS=1',
        '-DHAVE_POSIX_MEMALIGN=1', '-DHAVE_MPROTECT=1', '-DHAVE_LIBRT=1',
        '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_EPOLL_CREATE=1', '-DHAVE_EPOLL=1',
        '-DHAVE_UNISTD_H=1', '-DHAVE_STDINT_H=1', '-DHAVE_SYS_TYPES_H=1',
        '-DSTDC_HEADERS=1']
VARIANTS = {
    'epoll': [],
    'poll': ['-DDILL_POLL'],
    'tls': ['-DHAVE_TLS=1'],
    # Overruns of arrays on the stack of the resolver are detected, too (C29).
    'dns': [],
    # sigsetjmp and alloca instead of the switch of stacks in assembly.
    'fallback': ['-DDILL_ARCH_FALLBACK', '-fno-stack-protector', '-fno-stack-clash-protection', '--param', 'asan-instrument-allocas=0'],
    'nothreads': ['-UDILL_THREADS'],
    'nothreadsdns': ['-UDILL_THREADS'],
    # Stacks without a guard page.
    'noguard': ['-DDILL_NOGUARD'],
    'polltls': ['-DHAVE_TLS=1', '-DDILL_POLL'],
    # Every memory access of the library calls the check (C21).
    'threads': [],
    'threadskey': ['-DDILL_THREAD_FALLBACK'],
    'threadstls': ['-DHAVE_TLS=1'],
}
SAN = ['-fsanitize=address', '--param', 'asan-stack=0', '-fstack-protector-all']
CFLAGS = ['-std=gnu11', '-O1', '-g', '-w', '-U_FORTIFY_SOURCE'] + SAN
TSAN = ['-std=gnu11', '-O1', '-g', '-w', '-U_FORTIFY_SOURCE', '-fsanitize=thread', '-fno-builtin', '-fno-omit-frame-pointer']

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace'))
        sys.exit(3)

def sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def libsrcs():
    s = sorted(glob.glob(REPO + '/*.c')) + [REPO + '/dns/dns.c']
    return s

def headers():
    return (glob.glob(REPO + '/*.h') + glob.glob(REPO + '/*.inc') +
            glob.glob(REPO + '/dns/*.h'))

def syms():
    return open(VERIF + '/mc/syms.txt').read().split()

def lib(variant):
    threads = variant.startswith('threads')
    cflags = TSAN if threads else CFLAGS
    if variant == 'fallback': cflags = [f for f in CFLAGS if f != '-fstack-protector-all']
    hdr = sha(headers() + [VERIF + '/mc/shim.h', VERIF + '/mc/syms.txt', VERIF + '/mc/build.py'],
              ' '.join(DEFS + VARIANTS[variant] + cflags))
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    redef = os.path.join(BUILD, 'redef.txt')
    with open(redef + '.%d' % os.getpid(), 'w') as f:
        for s in syms(): f.write('%s vk_%s\n' % (s, s))
    os.replace(redef + '.%d' % os.getpid(), redef)
    objs, jobs = [], []
    for src in libsrcs():
        name = os.path.basename(src)[:-2]
        if name == 'tls' and not variant.endswith('tls'): continue
        o = os.path.join(d, '%s-%s-%s.o' % (name, variant, sha([src], hdr)))
        objs.append(o)
        if not os.path.exists(o): jobs.append((src, o))
    def cc(j):
        src, o = j
        name = os.path.basename(src)[:-2]
        t = o + '.%d.tmp.o' % os.getpid()
        extra = ['-D_GNU_SOURCE'] if src.endswith('dns.c') else []
        fl = cflags
        if (variant.endswith('dns') and name in ('dns', 'ipaddr')) or (variant == 'tls' and name == 'tls'): fl = [f for f in cflags if f not in ('--param', 'asan-stack=0')]
        run(['gcc', '-c'] + fl + DEFS + VARIANTS[variant] + extra +
            ['-include', VERIF + '/mc/shim.h', '-I' + REPO, '-I' + REPO + '/dns', '-o', t, src])
        run(['objcopy', '--redefine-syms=' + redef, t])
        if threads:
            run(['objcopy'] + ['--redefine-sym=%s=ts_%s' % (f, f) for f in
                 ('memcpy', 'memmove', 'memset', 'pthread_once', 'pthread_mutex_lock', 'pthread_mutex_unlock')] + [t])
        # The library's variables get sections of their own, so that they can
        # be reset before each execution (not those that libc and OpenSSL keep
        # references to).
        if name not in ('ctx', 'tls'):
            run(['objcopy', '--rename-section', '.data=libdata', '--rename-section', '.bss=libbss', t])
        os.replace(t, o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
    return objs

def harness(src, extra=[]):
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    deps = [src] + glob.glob(VERIF + '/mc/*.h') + glob.glob(VERIF + '/checks/*.h') + headers()
    o = os.path.join(d, '%s-%s.o' % (os.path.basename(src)[:-2],
        sha(deps, ' '.join(CFLAGS + extra))))
    if not os.path.exists(o):
        t = o + '.%d.tmp.o' % os.getpid()
        run(['gcc', '-c', '-Wall', '-Wno-unused', '-Wno-misleading-indentation', '-D_GNU_SOURCE'] +
            [f for f in CFLAGS if f != '-w'] + extra +
            ['-I' + VERIF + '/mc', '-I' + REPO, '-DDILL_SOCKETS=1', '-DDILL_THREADS=1', '-o', t, src])
        os.replace(t, o)
    return o

def build(check):
    check, _, vsel = check.partition('@')
    src = os.path.join(VERIF, 'checks', check + '.c')
    opts = {}
    for l in open(src):
        if l.startswith('// mc:'):
            for kv in l[6:].split():
                k, v = kv.split('=', 1); opts[k] = v
    variant = vsel or opts.get('variant', 'epoll')
    hflags = VARIANTS[variant] if variant == 'fallback' else []
    with ThreadPoolExecutor(8) as ex:
        fl = ex.submit(lib, variant)
        objs = list(ex.map(lambda s: harness(s[0], s[1]),
            [(src, ['-DVARIANT_' + variant.upper()] + hflags), (VERIF + '/mc/mc.c', []),
             (VERIF + '/mc/vk.c', []), (VERIF + '/mc/mock.c', [])]))
        objs += fl.result()
    if 'redef' in opts:
        # redef=object:from:to,...  reroutes one library function for one object
        new = []
        for o in objs:
            nm = os.path.basename(o).split('-')[0]
            r = [x.split(':') for x in opts['redef'].split(',')]
            r = [x for x in r if x[0] == nm]
            if r:
                o2 = o[:-2] + '.r.o'
                run(['objcopy'] + ['--redefine-sym=%s=%s' % (a, b) for _, a, b in r] + [o, o2 + '.tmp'])
                os.replace(o2 + '.tmp', o2)
                o = o2
            new.append(o)
        objs = new
    key = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, '%s-%s-%s' % (check, variant, key))
    if not os.path.exists(out):
        libs = ['-lpthread', '-lrt', '-lm'] + (['-lssl', '-lcrypto'] if variant.endswith('tls') else [])
        t = out + '.%d.tmp' % os.getpid()
        run(['gcc'] + SAN + ['-o', t] + objs + libs)
        os.replace(t, out)
    return out

if __name__ == '__main__':
    for c in sys.argv[1:]:
        print(build(c))
