#!/usr/bin/env python3
"""Builds and runs one property check.

  run.py ID                 quick or thorough by VERIF_TIER, seed by VERIF_SEED
  run.py --replay FILE      runs a replay file against the current tree
  run.py --build [ID ...]   only builds (all properties by default)
Options: --cases N, --seconds N, --seed N, --tier T, --workers N, --no-fuzz
Exit: 0 held, 1 violation, 2 the check could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
CXX = 'clang++-18'
ANDROID = '/usr/lib/x86_64-linux-gnu/android'
BASE = ['-std=c++17', '-g', '-O1', '-fno-omit-frame-pointer', '-I/usr/include/android',
        '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG', '-Wno-deprecated-declarations', '-pthread']
ASAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
TSAN = ['-fsanitize=thread']
ABSL = sorted(os.path.basename(x)[3:-3] for x in glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
LIBS = ['-L' + ANDROID, '-lcrypto', '-Wl,-rpath,' + ANDROID, '-lprotobuf', '-Wl,--as-needed'] + ['-l' + x for x in ABSL]


class BuildError(Exception):
    pass


# property -> (sources under props/, library of the harness, extra)
COMMON = ['engine/main.cc']
TOK = ['lib/crypto.cc', 'lib/json.cc', 'lib/world.cc']
PROPS = {
    'C01': dict(src=['props/c01.cc'], lib=TOK, reuse=True),
    'C02': dict(src=['props/c02.cc'], lib=TOK, reuse=True),
    'C03': dict(src=['props/c03.cc'], lib=TOK, reuse=True),
    'C04': dict(src=['props/c04.cc'], lib=TOK),
    'C05': dict(src=['props/c05.cc'], lib=TOK),
    'C06': dict(src=['props/c06.cc'], lib=TOK, vclock=True),
    'C07': dict(src=['props/c07.cc'], lib=TOK),
    'C08': dict(src=['props/c08.cc'], lib=TOK),
    'C09': dict(src=['props/c09.cc'], lib=TOK),
    'C10': dict(src=['props/c10.cc'], lib=TOK),
    'C11': dict(src=['props/c11.cc'], lib=TOK),
    'C12': dict(src=['props/c12.cc'], lib=TOK),
    'C13': dict(src=['props/c13.cc'], lib=TOK, fuzz_quick=40),
    'C14': dict(src=['props/c14.cc'], lib=['lib/json.cc']),
    'C15': dict(src=['props/c15.cc'], lib=TOK, tsan=True, no_fuzz=True),
    'C16': dict(src=['props/c16.cc'], lib=[], vclock=True),
    'C17': dict(src=['props/c17.cc'], lib=[], vclock=True),
    'C18': dict(src=['props/c18.cc'], lib=[], vclock=True),
    'C19': dict(src=['props/c19.cc'], lib=[], vclock=True),
    'C20': dict(src=['props/c20.cc'], lib=[], vclock=True),
    'C21': dict(src=['props/c21.cc'], lib=[]),
}


def repo_files(pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, 'rb') as f:
            h.update(p.encode() + b'\0' + f.read())
    return h.hexdigest()[:24]


class Builder:
    """Objects are cached by the content of every file they could depend on."""

    def __init__(self):
        self.repo_headers = repo_files(['jwt_verify_lib/*', 'simple_lru_cache/*', 'src/*.h'])
        self.own_headers = sorted(glob.glob(V + '/engine/*.h') + glob.glob(V + '/lib/*.h') +
                                  glob.glob(V + '/lib/*.inc') + glob.glob(V + '/props/*.h'))
        os.makedirs(B + '/obj', exist_ok=True)

    def obj(self, src, flags, pch_repo=True):
        deps = [src] + (self.repo_headers if pch_repo else []) + (
            [] if src.startswith(REPO + '/') else self.own_headers)
        key = digest(deps, ' '.join(flags))
        out = '%s/obj/%s-%s.o' % (B, os.path.basename(src).replace('.', '_'), key)
        if not os.path.exists(out):
            tmp = '%s.%d.tmp' % (out, os.getpid())
            cmd = [CXX] + flags + ['-c', src, '-o', tmp]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('compile failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
            os.replace(tmp, out)
        return out

    def binary(self, pid, fuzz=False):
        p = PROPS[pid]
        san = TSAN if p.get('tsan') else ASAN
        flags = BASE + san + ['-I' + REPO, '-I' + V + '/engine', '-I' + V + '/lib', '-I' + V + '/props']
        if fuzz:
            flags = flags + ['-fsanitize=fuzzer-no-link', '-DVP_FUZZ']
        own = COMMON + p['src'] + p['lib'] + (['engine/vclock.cc'] if p.get('vclock') else []) + (
            ['engine/bufcheck.cc'] if 'lib/crypto.cc' in p['lib'] else [])
        srcs = [os.path.join(V, s) for s in own] + repo_files(['src/*.cc'])
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            # biggest first
            objs = list(ex.map(lambda s: self.obj(s, flags), srcs))
        key = digest(objs, ' '.join(san) + pid)
        out = '%s/bin/%s%s-%s' % (B, pid, '-fuzz' if fuzz else '', key)
        if not os.path.exists(out):
            os.makedirs(B + '/bin', exist_ok=True)
            tmp = '%s.%d.tmp' % (out, os.getpid())
            link = [CXX] + san + (['-fsanitize=fuzzer'] if fuzz else []) + ['-g', '-pthread', '-rdynamic', '-o', tmp] + objs + LIBS
            r = subprocess.run(link, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('link failed\n' + r.stderr[-4000:])
            os.replace(tmp, out)
        return out


def setEnv(pid):
    if PROPS[pid].get('reuse'):
        # Freed memory is used again at once, so that a stale pointer finds
        # another object of the same kind.
        os.environ['ASAN_OPTIONS'] = 'quarantine_size_mb=0:thread_local_quarantine_size_kb=0'


TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|^[ \t]*\#[^\n]*|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)+'|(?<![\w.])'''
                   r'''(?:0[xX][\da-fA-F']+|0[bB][01']+|\d[\d']*(?:\.\d*)?(?:[eE][+-]?\d+)?)[uUlLfFzZ]*|[A-Za-z_]\w*|<<|\*|[^\s]''', re.S | re.M)


def number(s):
    s = s.replace("'", '')
    try:
        if s[:2] in ('0x', '0X', '0b', '0B'):
            return int(s.rstrip('uUlLzZ'), 0)
        s = s.rstrip('uUlLfFzZ')
        if re.fullmatch(r'0[0-7]+', s):
            return int(s, 8)
        return int(s) if s.isdigit() else float(s)
    except ValueError:
        return None


def literals():
    """Numbers and texts in the code under test, to guide generation: code may
    decide differently at them. Nothing is concluded from them."""
    nums, strs = set(), set()
    for f in repo_files(['src/*', 'jwt_verify_lib/*', 'simple_lru_cache/*']):
        toks = [t for t in TOKEN.findall(open(f, errors='replace').read()) if t[:2] not in ('//', '/*') and t.lstrip()[:1] != '#']
        vals = [number(t) if t[0].isdigit() else None for t in toks]
        for i, t in enumerate(toks):
            if t[0] in '"\'' and len(t) < 200 and not f.endswith('/status.cc'):
                try:
                    b = t[1:-1].encode('utf-8', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
                except (UnicodeDecodeError, ValueError):
                    continue
                if b and b.isascii() and b'CERTIFICATE' not in b and not (b.count(b' ') > 1 and len(b) > 12):
                    strs.add(b)
            if vals[i] is None:
                continue
            v = vals[i]
            nums.add(v)
            # 1 << 20, 64 * 1024, 24 * 60 * 60
            k = i
            while k + 2 < len(toks) and vals[k + 2] is not None and toks[k + 1] in ('<<', '*'):
                if toks[k + 1] == '*':
                    v = v * vals[k + 2]
                elif isinstance(v, int) and isinstance(vals[k + 2], int) and vals[k + 2] < 64:
                    v = v << vals[k + 2]
                k += 2
                nums.add(v)
    ints = set()
    for v in nums:
        if v != v or abs(v) >= 2 ** 63:
            continue
        ints |= {int(v), int(v) + 1} if v != int(v) else {int(v)}
    return ''.join('n %d\n' % v for v in sorted(ints)) + ''.join('s %s\n' % b.hex() for b in sorted(strs))


def prune():
    """Keeps the cache from growing without bound."""
    for d, keep in (('obj', 600), ('bin', 120)):
        fs = sorted(glob.glob('%s/%s/*' % (B, d)), key=os.path.getmtime)
        for f in fs[:-keep]:
            try:
                os.remove(f)
            except OSError:
                pass


def fuzz(pid, exe, drv, seed, seconds, work, replay):
    """Coverage-guided search over the same choice sequences."""
    n = os.cpu_count() or 4
    procs = []
    for i in range(n):
        d = '%s/fuzz%d' % (work, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/corpus')
        env = dict(os.environ)
        cmd = [exe, d + '/corpus', '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % seconds,
               '-artifact_prefix=%s/' % d, '-print_final_stats=1', '-timeout=60', '-rss_limit_mb=3000',
               '-max_len=%d' % (4096 if i % 2 else 1024), '-use_value_profile=%d' % (i % 2),
               '-len_control=%d' % (0 if i % 3 == 0 else 100), '-verbosity=0', '-detect_leaks=0']
        procs.append((d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(d + '/log', 'w'), env=env)))
    total, arts, corpus = 0, [], 0
    end = time.time() + seconds + 90
    for d, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(d + '/log', errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', log)
        total += int(m.group(1)) if m else 0
        corpus += len(os.listdir(d + '/corpus'))
        arts += [a for a in sorted(glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*') + glob.glob(d + '/oom-*'))]
    rc = 0
    for a in arts[:4]:
        r = subprocess.run([drv, '--work', work, '--raw', a, '--replay-out', replay], capture_output=True, text=True)
        sys.stdout.write(r.stdout[-6000:])
        if r.returncode == 1:
            rc = 1
            break
    return rc, total, corpus, len(arts)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='*')
    ap.add_argument('--replay')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--cases', type=int, default=0)
    ap.add_argument('--seconds', type=int, default=0)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--no-fuzz', action='store_true')
    a = ap.parse_args()
    os.makedirs(B, exist_ok=True)
    if a.build:
        b = Builder()
        for pid in a.id or sorted(PROPS):
            b.binary(pid)
            if PROPS[pid].get('fuzz_quick'):
                b.binary(pid, fuzz=True)
        prune()
        return 0
    if a.replay:
        pid = re.search(r'property (C\d+)', open(a.replay).read()).group(1)
        exe = Builder().binary(pid)
        setEnv(pid)
        return subprocess.run([exe, '--work', B + '/work-replay', '--replay', a.replay, '--print']).returncode
    pid = a.id[0]
    p = PROPS[pid]
    setEnv(pid)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    b = Builder()
    exe = b.binary(pid)
    built = time.time() - t0
    work = '%s/work-%s' % (B, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(work + '/literals.txt', 'w') as f:
        f.write(literals())
    os.environ['VP_LITERALS'] = work + '/literals.txt'
    os.makedirs(B + '/replays', exist_ok=True)
    replay = '%s/replays/%s-%s-seed%d.txt' % (B, pid, tier, seed)
    maxs = a.seconds or (240 if tier == 'quick' else 3000)
    cmd = [exe, '--work', work, '--seed', str(seed), '--workers', str(a.workers), '--max-seconds', str(maxs),
           '--replay-out', replay]
    if a.cases:
        cmd += ['--cases', str(a.cases)]
    if tier == 'thorough':
        cmd += ['--thorough']
    rc = subprocess.run(cmd).returncode
    st = {}
    try:
        st = json.load(open(work + '/stats.json'))
    except Exception as e:
        print('no statistics:', e)
    cov = dict(evaluations=st.get('evaluations', 0), distinct_nontrivial=st.get('distinct_nontrivial', 0),
               rule=st.get('rule', ''), samples=st.get('samples', []), classes=st.get('classes', {}),
               requested_cases=st.get('requested', 0), search_seconds=st.get('seconds', 0))
    fz = 0
    if not a.no_fuzz and rc == 0 and not p.get('no_fuzz'):
        fz = p.get('fuzz_quick', 0) if tier == 'quick' else 600
        if a.seconds and fz:
            fz = min(fz, a.seconds)
    if fz:
        fexe = b.binary(pid, fuzz=True)
        frc, n, corp, arts = fuzz(pid, fexe, exe, seed, fz, work, replay)
        cov['fuzz'] = dict(engine='libFuzzer', executions=n, corpus_inputs=corp, artifacts=arts, seconds=fz)
        cov['evaluations'] += n
        if frc == 1:
            rc = 1
    os.makedirs(V + '/evidence', exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    ev['coverage']['build_seconds'] = round(built, 2)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for line in known(pid):
        print(line)
    shutil.rmtree(work, ignore_errors=True)
    prune()
    if rc in (0, 1):
        return rc
    print('check error: driver ended with', rc)
    return 2


ASSUME = ['BoringSSL, protobuf and abseil as installed behave as documented',
          'the generated cases of this run represent the quantified space; absence of violations is not established']


def known(pid):
    """Findings recorded and not repaired: none so far; the file holds only fixed entries."""
    out = []
    try:
        for line in open(V + '/known-findings.txt'):
            if line.startswith('finding: property=%s ' % pid):
                out.append('KNOWN-FINDING: ' + line[len('finding: '):].strip())
    except OSError:
        pass
    return out


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('check error: the sources do not build\n%s' % e)
        sys.exit(2)
