#!/usr/bin/env python3
"""check.py PXX            run the check of property PXX (VERIF_SEED, VERIF_TIER)
check.py setup             build library and harnesses once
check.py PXX replay FILE   run one recorded case again

Builds the library from /repo's working tree and the harness of the property
from /verif/harness, searches, writes evidence/PXX.json.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LPAGGREG_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'lpaggreg')
BUILD = os.path.join(HERE, 'build')
HARNESS = os.path.join(HERE, 'harness')

# cases of the quick tier; the thorough tier multiplies them
CASES = {'P01': 500000, 'P02': 875000, 'P03': 120000, 'P04': 170000, 'P05': 400000, 'P06': 800000, 'P07': 1050000, 'P08': 153000,
         'P09': 700000, 'P10': 110000, 'P11': 400000, 'P12': 120000, 'P13': 160000, 'P14': 375000, 'P15': 3200000, 'P16': 4000000,
         'P17': 400000, 'P18': 252000, 'P19': 600000, 'P20': 2100000, 'P21': 900000, 'P22': 5000000, 'P23': 50000, 'P24': 120000, 'P25': 60000, 'P26': 500000, 'P27': 3000, 'P28': 12000,
         'P29': 78000, 'P30': 90000, 'P31': 11000}
THOROUGH = 40
QUICK_WALL, THOROUGH_WALL, FUZZ_WALL = 150, 330, 150
SANITIZED = {'P23', 'P28', 'P31'}
THREADED = {'P27'}        # under ThreadSanitizer
WITH_R = {'P25'}          # also runs the C++ code embedded in the R script

ASSUMPTIONS = ['the library is built with g++ -O2 from the sources under src/lpaggreg',
               'inputs are within the domain stated in DESIGN.md (root is not a leaf, every inner node has a child, finite data, min<=max, threshold>0)']


class Flavour:
    def __init__(self, name, cxx, common, lib_std='-std=gnu++11'):
        self.name, self.cxx, self.common, self.lib_std = name, cxx, common, lib_std


PLAIN = Flavour('plain', 'g++', ['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern', '-w'])
SAN = Flavour('san', 'g++', ['-O1', '-g1', '-DNDEBUG', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined',
                             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG', '-w'])
TSAN = Flavour('tsan', 'g++', ['-O1', '-g1', '-DNDEBUG', '-ftrivial-auto-var-init=pattern', '-fsanitize=thread', '-w'])
FUZZ = Flavour('fuzz', 'clang++', ['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern', '-fsanitize=fuzzer-no-link', '-w'])
FUZZSAN = Flavour('fuzzsan', 'clang++', ['-O1', '-g1', '-DNDEBUG', '-ftrivial-auto-var-init=pattern',
                                         '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all',
                                         '-D_GLIBCXX_ASSERTIONS', '-w'])


def flavour(prop):
    return SAN if prop in SANITIZED else TSAN if prop in THREADED else PLAIN


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


class BuildError(Exception):
    pass


def r_strings(text):
    """the string literals of an R script"""
    i, n, out = 0, len(text), []
    while i < n:
        c = text[i]
        raw = re.match(r'[rR](["\'])(-*)([(\[{])', text[i:]) if not (i and (text[i - 1].isalnum() or text[i - 1] in '._')) else None
        if c == '#':
            i = text.find('\n', i)
            i = n if i < 0 else i
        elif raw:
            end = {'(': ')', '[': ']', '{': '}'}[raw.group(3)] + raw.group(2) + raw.group(1)
            j = text.find(end, i + raw.end())
            if j < 0:
                break
            out.append(text[i + raw.end():j])
            i = j + len(end)
        elif c in '"\'`':
            j, buf = i + 1, []
            while j < n and text[j] != c:
                if text[j] == '\\' and j + 1 < n:
                    buf.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(text[j + 1], text[j + 1]))
                    j += 2
                else:
                    buf.append(text[j])
                    j += 1
            if c != '`':
                out.append(''.join(buf))
            i = j + 1
        else:
            i += 1
    return out


def r_unit():
    """a C++ file with the code that /repo/R/lpaggreg.R hands to Rcpp, and entry points for the harness"""
    with open(os.path.join(REPO, 'R', 'lpaggreg.R'), newline=None, errors='replace') as f:
        text = f.read()
    code = '\n'.join(x for x in r_strings(text) if '#include' in x or 'Rcpp::export' in x)
    if 'Rcpp::export' not in code:
        raise BuildError('no C++ code in R/lpaggreg.R')
    code += '''
extern "C" SEXP r_oaggregate(SEXP a, SEXP b) { return rstub::invoke(&::oaggregate, a, b); }
extern "C" SEXP r_haggregate(SEXP a, SEXP b, SEXP c) { return rstub::invoke(&::haggregate, a, b, c); }
extern "C" SEXP r_daggregate(SEXP a, SEXP b, SEXP c) { return rstub::invoke(&::daggregate, a, b, c); }
'''
    key = digest(code)
    folder = os.path.join(BUILD, 'r-' + key)
    path = os.path.join(folder, 'r.cpp')
    if not os.path.exists(path):
        os.makedirs(folder, exist_ok=True)
        with open(path + '.%d' % os.getpid(), 'w') as f:
            f.write(code)
        os.rename(path + '.%d' % os.getpid(), path)
    return path, key


def r_include():
    """a folder in which the headers of /repo are found as <lpaggreg/...>, as after an installation"""
    folder = os.path.join(BUILD, 'inc-' + digest(SRC))
    os.makedirs(folder, exist_ok=True)
    link, target = os.path.join(folder, 'lpaggreg'), os.path.join(SRC, 'headers')
    if not (os.path.islink(link) and os.readlink(link) == target):
        tmp = link + '.%d' % os.getpid()
        os.symlink(target, tmp)
        os.replace(tmp, link)
    return folder


def run_compiler(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])


def compile_object(fl, std, source, key, extra=()):
    out = os.path.join(BUILD, fl.name, key + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        run_compiler([fl.cxx, std] + fl.common + list(extra) + ['-I' + os.path.join(SRC, 'headers'), '-I' + HARNESS, '-c', source, '-o', tmp])
        os.rename(tmp, out)
    return out


def jobs_for(fl, prop, fuzz):
    """(callables returning the object files) of the library and of one harness"""
    files = sorted(f for f in glob.glob(os.path.join(SRC, '**', '*'), recursive=True) if os.path.isfile(f))
    units = [f for f in files if f.endswith(('.cpp', '.cc', '.cxx', '.c'))]
    if not units:
        raise BuildError('no sources under ' + SRC)
    headers = [f for f in files if f not in units]
    hh = digest(*[x for f in headers for x in (os.path.relpath(f, SRC), read(f))])
    flags = digest(fl.cxx, fl.lib_std, *fl.common)
    jobs = []
    for u in units:
        key = 'lib-' + digest(os.path.relpath(u, SRC), read(u), hh, flags)
        jobs.append(lambda u=u, key=key: compile_object(fl, fl.lib_std, u, key))
    if prop:
        source = os.path.join(HARNESS, prop.lower() + '.cpp')
        own = digest(read(source), *[read(f) for f in sorted(glob.glob(os.path.join(HARNESS, '*.h')))])
        if prop in WITH_R:
            own = digest(own, *[read(f) for f in sorted(glob.glob(os.path.join(HARNESS, 'rstub', '*')))])
            unit, ukey = r_unit()
            ukey = 'r-' + digest(ukey, own, hh, flags)
            more = ['-I' + os.path.join(HARNESS, 'rstub'), '-I' + r_include()]
            jobs.insert(0, lambda: compile_object(fl, '-std=gnu++11', unit, ukey, more))
        extra = ['-DPBT_FUZZ'] if fuzz else []
        key = 'h-' + prop + '-' + digest(own, hh, flags, *extra)
        jobs.insert(0, lambda: compile_object(fl, '-std=gnu++14', source, key, extra))
    return jobs


def build(fl, prop, out_dir, fuzz=False):
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objects = [f.result() for f in [ex.submit(j) for j in jobs_for(fl, prop, fuzz)]]
    exe = os.path.join(out_dir, prop + '-' + fl.name + ('-fuzz' if fuzz else ''))
    flags = [x for x in fl.common if x.startswith('-fsanitize') or x.startswith('-fno-sanitize')]
    if fl.cxx == 'clang++':
        flags = [x.replace('fuzzer-no-link', 'fuzzer') if fuzz else x.replace('fuzzer-no-link,', '').replace('-fsanitize=fuzzer-no-link', '-g0') for x in flags]
        if not fuzz:    # the objects carry coverage calls that only the fuzzer's runtime defines
            flags.append('-fsanitize=fuzzer-no-link')
    run_compiler([fl.cxx, '-pthread'] + flags + objects + ['-o', exe])
    return exe


def environment():
    e = dict(os.environ)
    e['MALLOC_PERTURB_'] = '165'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=165:allocator_may_return_null=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:report_bugs=1:history_size=4'
    e['LC_ALL'] = 'C'
    return e


def prune():
    """keeps the object cache small; a fresh sandbox has none"""
    total, files = 0, []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            total += st.st_size
            files.append((st.st_mtime, st.st_size, p))
    if total > 800 * 1000 * 1000:
        for _, size, p in sorted(files):
            try:
                os.unlink(p)
            except OSError:
                pass
            total -= size
            if total < 300 * 1000 * 1000:
                break


def search(exe, prop, seed, tier, cases, wall, work, replay):
    cmd = [exe, 'run', '--seed', str(seed), '--cases', str(cases), '--workers', str(max(2, min(16, os.cpu_count() or 4))), '--wall', str(wall),
           '--dir', work, '--replay', replay, '--tier', tier, '--cpu', '60' if prop in SANITIZED | THREADED else '20']
    r = subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sys.stdout.write(r.stdout.decode(errors='replace')[:6000])
    sys.stdout.flush()
    path = os.path.join(work, 'result.json')
    if r.returncode not in (0, 1) or not os.path.exists(path):
        print('the search engine ended with code %d' % r.returncode)
        return None
    res = json.load(open(path))
    res['violated'] = r.returncode == 1
    return res


def fuzz(prop, work, seed, replay):
    """coverage-guided search of the same property; returns (runs, features, violated)"""
    fl = FUZZSAN if prop in SANITIZED else FUZZ
    exe = build(fl, prop, work, fuzz=True)
    corpus, arte = os.path.join(work, 'corpus'), os.path.join(work, 'artifacts') + '/'
    os.makedirs(corpus), os.makedirs(arte)
    for i in range(32):      # something to start from: seeded random bytes
        with open(os.path.join(corpus, 's%d' % i), 'wb') as f:
            b, k = b'', 0
            while len(b) < 64 * (1 + i % 8):
                b += hashlib.sha256(b'%d-%d-%d' % (seed, i, k)).digest()
                k += 1
            f.write(b)
    n = max(2, min(8, os.cpu_count() or 4))
    cmd = [exe, '-fork=%d' % n, '-max_total_time=%d' % FUZZ_WALL, '-timeout=60', '-rss_limit_mb=3000', '-max_len=2048', '-ignore_ooms=1',
           '-seed=%d' % (seed % 2**31 + 1), '-artifact_prefix=' + arte, corpus]
    r = subprocess.run(cmd, env=environment(), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors='replace')
    runs = features = 0
    for line in out.splitlines():
        if line.startswith('#') and 'cov:' in line:
            try:
                runs = max(runs, int(line[1:].split(':')[0].split()[0]))
                features = max(features, int(line.split('ft:')[1].split()[0]))
            except (ValueError, IndexError):
                pass
    found = sorted(glob.glob(arte + '*'))
    found = [f for f in found if not os.path.basename(f).startswith('oom')]
    if found:
        judges = [build(flavour(prop), prop, work)]
        if prop in SANITIZED:
            judges.append(build(FUZZSAN, prop, work))
        for judge in judges:
            for f in found[:5]:
                q = subprocess.run([judge, 'shrinkbytes', f, '--replay', replay, '--cpu', '60'], env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                sys.stdout.write(q.stdout.decode(errors='replace')[:6000])
                if q.returncode == 1:
                    return runs, features, True
    return runs, features, False


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    prune()
    work = tempfile.mkdtemp(prefix=prop + '-', dir=BUILD)
    replay = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, tier, seed))
    if os.path.exists(replay):
        os.unlink(replay)
    try:
        exe = build(flavour(prop), prop, work)
        built = time.time() - t0
        many = tier == 'thorough'
        res = search(exe, prop, seed, tier, CASES[prop] * (THOROUGH if many else 1), THOROUGH_WALL if many else QUICK_WALL, work, replay)
        if res is None:
            return 2
        violated = res['violated']
        cov = {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'nontrivial': res['nontrivial'],
               'rule': res['rule'], 'samples': [s[:2500] for s in res['samples']], 'classes': res['labels'],
               'planned_cases_all_run': res['complete'], 'failures_not_reproduced': res['unreproduced'],
               'slowest_case_cpu_s': res['slowest_case_cpu_s'], 'slowest_case': res['slowest_case'], 'build_s': round(built, 2)}
        if many and not violated:
            runs, features, violated = fuzz(prop, work, seed, replay)
            cov['coverage_guided_runs'] = runs
            cov['coverage_guided_features'] = features
            cov['evaluations'] += runs
        if res['evaluations'] == 0 and not violated:
            print('no case was run')
            return 2
        evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': ASSUMPTIONS,
                    'wall_s': round(time.time() - t0, 2), 'violations': 1 if violated else 0}
        if violated:
            evidence['coverage']['failure'] = (res.get('failure') or 'found by the fuzzer')[:1500]
        tmp = os.path.join(work, 'evidence.json')
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
        print('%s: %d cases, %d distinct non-trivial, %.1f s (%.1f s to build)' % (prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, built))
        if violated:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        todo = []
        for p in sorted(CASES):
            todo += jobs_for(flavour(p), p, False)
        # the library's objects appear once per property; compiling one twice is harmless, so each flavour's set is built first
        for fl in (PLAIN, SAN, TSAN):
            list(ex.map(lambda j: j(), jobs_for(fl, None, False)))
        list(ex.map(lambda j: j(), todo))
    print('built for %d properties' % len(CASES))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a == ['setup']:
            return setup()
        if len(a) == 1 and a[0] in CASES:
            return check(a[0])
        if len(a) == 3 and a[0] in CASES and a[1] == 'replay':
            os.makedirs(BUILD, exist_ok=True)
            work = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
            try:
                exe = build(flavour(a[0]), a[0], work)
                tier = json.load(open(a[2])).get('tier', 'quick')
                return subprocess.call([exe, 'replay', a[2], '--tier', tier], env=environment())
            finally:
                shutil.rmtree(work, ignore_errors=True)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
