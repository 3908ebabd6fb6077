#!/usr/bin/env python3
"""Mutation run: how many small changes of the library do the checks notice?

usage: mutate.py LOG PER_FILE LANES [FILE...]
Not a check. Works on copies of /repo's sources below /tmp; survivors are
listed in LOG for inspection (some of them do not change the behaviour)."""
import sys, os, re, random, subprocess, shutil, glob, threading, queue, time
MAP = {
 'chan.c': 'C01 C02 C04 C11', 'cr.c': 'C04 C05 C03 C06 C22 C11', 'handle.c': 'C07 C28', 'rbtree.c': 'C03 C06',
 'epoll.c.inc': 'C08 C11', 'poll.c.inc': 'C08@poll C11@poll', 'fd.c': 'C25 C10 C09 C18 C11', 'tcp.c': 'C10 C09 C23 C20 C11', 'ipc.c': 'C25 C10 C09 C23 C11',
 'iol.c': 'C23 C09 C18 C12', 'bsock.c': 'C23 C09', 'msock.c': 'C23 C12', 'prefix.c': 'C12 C28 C23 C11', 'suffix.c': 'C13 C28 C23 C11', 'term.c': 'C14 C28 C23 C11',
 'ws.c': 'C15 C24 C28 C23 C11', 'http.c': 'C16 C28 C24 C11', 'socks5.c': 'C17 C11', 'udp.c': 'C18 C23 C11', 'ipaddr.c': 'C19 C29 C20', 'happyeyeballs.c': 'C20',
 'now.c': 'C26 C03', 'stack.c': 'C22 C11', 'ctx.c': 'C21 C07', 'utils.c': 'C21 C24 C15 C19 C11', 'tls.c': 'C27', 'pollset.c': 'C08', 'libdill.c': 'C03 C04',
 'list.h': 'C01 C05', 'slist.h': 'C05 C06', 'qlist.h': 'C06 C01', 'dns/dns.c': 'C29', 'fd.h': 'C09', 'cr.h': 'C05'}
NAMES = {os.path.basename(f)[:3]: os.path.basename(f)[:-2] for f in glob.glob('/verif/checks/C*.c')}
SWAPS = [(r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<']), (r'>=', ['>']), (r'(?<![<\-=>])<(?![<=])', ['<=', '>']), (r'(?<![>\-=])>(?![>=])', ['>=']), (r'&&', ['||']), (r'\|\|', ['&&']),
  (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\+\+', ['--']), (r'--', ['++']), (r'(?<![\w.])0(?![\w.x])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', ['N']),
  (r'(?<=[(\s])!(?=[\w(])', ['']), (r'\bE[A-Z]{3,}\b', ['EDOM']), (r' & ', [' | ']), (r' \| ', [' & ']), (r'<<', ['>>']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'\breturn -1;', ['return 0;']), (r'\breturn 0;', ['return -1;']), (r'goto error(\d);', ['G'])]
def mutants(path):
    src = open(path, errors='surrogateescape').read().split('\n'); out = []; com = False
    for i, l in enumerate(src):
        s = l.strip()
        if com:
            if '*/' in l: com = False
            continue
        if s.startswith('/*'):
            if '*/' not in l: com = True
            continue
        if s.startswith('#') or s.startswith('//') or 'dill_assert' in s or not s or 'CHECK_STORAGE' in s or 'fprintf' in s: continue
        code = l.split('/*')[0]; lits = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])+\'', code)]
        if re.match(r'\s*(static|struct|int|void|size_t|typedef|DILL_EXPORT|extern|ssize_t|unsigned|char|const|uint)\b[^=]*[;({,]?$', code) and '=' not in code: continue
        for rx, reps in SWAPS:
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in lits): continue
                for r in reps:
                    if r == 'N': r = str(int(m.group(0)) + 1)
                    if r == 'G': r = 'goto error%d;' % (int(m.group(1)) - 1 or 2)
                    out.append((i, l[:m.start()] + r + l[m.end():]))
        if re.match(r'\s+[\w>.\-\[\]*()&, ]+ ?(=|\+=|-=|\|=|&=)[^=].*;\s*$', code) and not re.match(r'\s+(int|struct|size_t|ssize_t|uint\w+|int64_t|char|const|void|static|unsigned)\b', code): out.append((i, re.match(r'\s*', l).group(0) + ';'))
        if re.match(r'\s+[a-z_]\w*\(.*\);\s*$', code) and not s.startswith('return'): out.append((i, re.match(r'\s*', l).group(0) + ';'))
        m = re.match(r'(\s*(?:\} else )?if\()(.*)(\)[^()]*)$', code)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            out.append((i, m.group(1) + '0 && (' + m.group(2) + ')' + m.group(3) + l[len(code):])); out.append((i, m.group(1) + '1 || (' + m.group(2) + ')' + m.group(3) + l[len(code):]))
    return src, out
def main():
    log, per, lanes = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:] or list(MAP)
    q = queue.Queue(); rnd = random.Random(int(os.environ.get('SEED', '7'))); jobs = []
    for f in files:
        src, ms = mutants('/repo/' + f); rnd.shuffle(ms); jobs.append([(f, i, n) for i, n in ms[:per]])
    for k in range(max(map(len, jobs))):
        for j in jobs:
            if k < len(j): q.put(j[k])
    lock = threading.Lock(); lf = open(log, 'a'); tot = q.qsize()
    def lane(n):
        d = '/tmp/w/mut%d' % n; r = d + '/repo'; b = d + '/build'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(r + '/dns'); os.makedirs(b)
        for f in subprocess.run(['git', '-C', '/repo', 'ls-files'], capture_output=True, text=True).stdout.split('\n'):
            if re.match(r'(dns/)?[^/]+\.(c|h|inc)$', f): shutil.copy('/repo/' + f, r + '/' + f)
        env = dict(os.environ, MC_REPO=r, MC_BUILD=b, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=16:print_legend=0:malloc_context_size=6:alloc_dealloc_mismatch=0')
        while True:
            try: f, i, new = q.get_nowait()
            except queue.Empty: break
            orig = open('/repo/' + f, errors='surrogateescape').read(); L = orig.split('\n'); old = L[i]; L[i] = new
            open(r + '/' + f, 'w', errors='surrogateescape').write('\n'.join(L)); res = 'SURVIVED'; t0 = time.time()
            for c in MAP[f].split():
                nm = NAMES[c[:3]] + c[3:]
                p = subprocess.run(['python3', '/verif/mc/build.py', nm], capture_output=True, text=True, env=env, cwd='/verif')
                if p.returncode: res = 'nocompile'; break
                bn = p.stdout.split()[-1]
                try:
                    p = subprocess.run([bn, '--workers', '2', '--evidence', d + '/ev.json', '--known', '/verif/known_findings.txt', '--out', d + '/out'], capture_output=True, env=env, cwd='/verif', timeout=600)
                    if p.returncode == 1: res = 'killed ' + c; break
                    if p.returncode: res = 'BROKEN(%d) %s' % (p.returncode, c); break
                except subprocess.TimeoutExpired: res = 'TIMEOUT ' + c; subprocess.run(['pkill', '-9', '-f', bn]); break
            for x in glob.glob(b + '/C*'): os.unlink(x)
            for x in glob.glob(b + '/obj/%s-*' % os.path.basename(f)[:-2]): os.unlink(x)
            if f[-1] != 'c':
                for x in glob.glob(b + '/obj/*'): os.unlink(x)
            open(r + '/' + f, 'w', errors='surrogateescape').write(orig)
            with lock: lf.write('%s %s:%d [%ds]\n   - %s\n   + %s\n' % (res, f, i + 1, time.time() - t0, old.strip(), new.strip())); lf.flush()
    ts = [threading.Thread(target=lane, args=(n,)) for n in range(lanes)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for n in range(lanes): shutil.rmtree('/tmp/w/mut%d' % n, ignore_errors=True)
    lf.write('done %d\n' % tot); lf.close()
main()
