#!/usr/bin/env python3
"""Run one property's monitors:  run.py <PROPERTY> [quick|thorough]

Builds the library (and whatever else the property needs) from /repo's current
working tree with the requested instrumentation, runs the drivers in
/verif/harness against it, merges what the monitors observed into
/verif/evidence/<PROPERTY>.json, and decides:

  exit 0  held on everything explored (KNOWN-FINDING lines for listed defects)
  exit 1  a line "VIOLATION property=<id> replay=<path>"
  exit 2  the check itself could not give an answer
"""
import array, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

BUILD = os.path.join(HERE, '.build')
NCPU = os.cpu_count() or 4

class HarnessError(Exception):
    pass

# ---------------------------------------------------------------- building
SAN = ('-O1 -gline-tables-only -fno-omit-frame-pointer '
       '-fsanitize=address,undefined -fno-sanitize=alignment '
       '-fno-sanitize-recover=all -w')
# glibc >= 2.38 declares strlcpy/strlcat noexcept; clang rejects the library's own
# definitions unless exceptions are off (they are not used)
CLANGLIB = '-std=c++14 -fno-exceptions'
FLAVOURS = {
    # production-like: the repository's own optimisation level
    'plain': dict(cc='gcc', cxx='g++', flags='-O3 -g1 -w'),
    # address + undefined behaviour sanitizers, reports fatal
    'asan': dict(cc='clang', cxx='clang++', flags=SAN, lib=CLANGLIB),
    # reads of uninitialised memory
    'msan': dict(cc='clang', cxx='clang++',
                 flags='-O1 -gline-tables-only -fno-omit-frame-pointer '
                       '-fsanitize=memory -fsanitize-memory-track-origins -fno-sanitize-recover=all -w',
                 lib=CLANGLIB),
}
# the same two, with edge coverage in the library for the fuzzing engine in the driver (which itself stays uncovered;
# under MSan it is uninstrumented, because libstdc++ is)
COV = ' -fsanitize-coverage=trace-pc-guard'
FLAVOURS['fuzza'] = dict(cc='clang', cxx='clang++', flags=SAN + COV, lib=CLANGLIB, drv=SAN)
FLAVOURS['fuzzm'] = dict(cc='clang', cxx='clang++', flags=FLAVOURS['msan']['flags'] + COV, lib=CLANGLIB,
                         drv='-O1 -gline-tables-only -fno-omit-frame-pointer -fno-sanitize=memory -DVH_MSAN -w')

def repo_sources():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'],
                         capture_output=True)
    if out.returncode:
        names = sorted(os.listdir(REPO))
    else:
        names = sorted(set(n for n in out.stdout.decode().split('\0') if n))
    res = []
    for n in names:
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and not n.startswith('_build/'):
            res.append(n)
    return res

def tree_hash(names):
    h = hashlib.sha256()
    for n in names:
        h.update(n.encode() + b'\0')
        with open(os.path.join(REPO, n), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]

def sh(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors='replace')[-1500:])
        raise HarnessError('%s failed (%d)' % (what, r.returncode))
    return r.stdout

_built = {}
def build_lib(flavour):
    """Private copy of the working tree + liblunar.a, per flavour."""
    if flavour in _built:
        return _built[flavour]
    names = repo_sources()
    fl = FLAVOURS[flavour]
    th = tree_hash(names)
    key = hashlib.sha256((th + json.dumps(fl, sort_keys=True)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, '%s-%s' % (flavour, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, '.ok')):
            # drop stale builds of this flavour
            for o in os.listdir(BUILD):
                if o.startswith(flavour + '-') and o != os.path.basename(d):
                    shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n in names:
                dst = os.path.join(d, n)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, n), dst)
            sh(['make', '-f', 'makefile', '-j%d' % NCPU, 'CC=' + fl['cc'], 'CXX=' + fl['cxx'],
                'CFLAGS=' + fl['flags'], 'CXXFLAGS=' + fl['flags'] + ' ' + fl.get('lib', ''), 'liblunar.a'], d,
               'building liblunar.a (%s)' % flavour)
            open(os.path.join(d, '.ok'), 'w').close()
    _built[flavour] = d
    return d

def compile_driver(prop, stage):
    fl = FLAVOURS[stage['flavour']]
    d = build_lib(stage['flavour'])
    src = os.path.join(HERE, 'harness', stage['driver'])
    base = os.path.splitext(stage['driver'])[0]
    work = os.path.join(d, 'drv_%s_%s' % (prop, base))
    os.makedirs(work, exist_ok=True)
    exe = os.path.join(work, base)
    jobs, objs = [], []
    dflags = stage.get('cflags', '')
    for i, e in enumerate(stage.get('extra', [])):
        # "file.cpp flags..."
        parts = e.split(None, 1)
        o = os.path.join(work, 'x%d_%s.o' % (i, os.path.basename(parts[0]).replace('.', '_')))
        comp = fl['cc'] if parts[0].endswith('.c') else fl['cxx']
        jobs.append('%s %s %s -I. -c %s -o %s' % (comp, fl['flags'] + ('' if parts[0].endswith('.c') else ' ' + fl.get('lib', '')), parts[1] if len(parts) > 1 else '',
                                                  os.path.join(d, parts[0]), o))
        objs.append(o)
    o = os.path.join(work, base + '.o')
    opt = fl.get('drv', fl['flags'])
    if stage['flavour'] == 'plain':
        opt = opt.replace('-O3', '-O2')
    jobs.append('%s -std=c++17 %s %s -I%s -I%s -c %s -o %s' % (fl['cxx'], opt, dflags, d,
                                                  os.path.join(HERE, 'harness'), src, o))
    objs.append(o)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda c: sh(c, d, 'compiling for ' + base), jobs))
    # the driver's own object first: its definitions (assert hooks) win
    sh('%s %s %s %s -o %s %s liblunar.a -lm -lpthread %s' % (
        fl['cxx'], fl['flags'], stage.get('ldflags', ''), o, exe,
        ' '.join(x for x in objs if x != o), stage.get('libs', '')), d, 'linking ' + base)
    return exe, d

def build_tools(stage, d):
    """stage['tools'] = ['name=source.cpp -DFLAGS extra.cpp', ...] -> directory of executables"""
    fl = FLAVOURS[stage['flavour']]
    td = os.path.join(d, 'tools')
    os.makedirs(td, exist_ok=True)
    def one(t):
        name, rest = t.split('=', 1)
        c = rest.split()[0].endswith('.c')
        exe = os.path.join(td, name)
        stamp = exe + '.cmd'
        cmd = '%s %s -I. %s -o %s liblunar.a -lm -lpthread' % (
            fl['cc'] if c else fl['cxx'], fl['flags'] + ('' if c else ' ' + fl.get('lib', '')), rest, exe)
        if os.path.exists(stamp) and open(stamp).read() == cmd and os.path.exists(exe):
            return
        if any(x.endswith('.cpp') for x in rest.split()[1:]) or c:
            cmd += ' -lstdc++' if c else ''
        sh(cmd, d, 'building ' + name)
        with open(stamp, 'w') as f:
            f.write(cmd)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, stage['tools']))
    return td

# ---------------------------------------------------------------- running
ENV_SAN = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1:handle_segv=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'MSAN_OPTIONS': 'exitcode=77:abort_on_error=0:halt_on_error=1:symbolize=1',
}

def crash_key(err, rc):
    """Stable identity of a sanitizer report or abort: kind + first frame inside the library."""
    kind = None
    m = re.search(r'ERROR: (?:Address|Memory)Sanitizer: ([\w-]+)', err) or \
        re.search(r'WARNING: MemorySanitizer: ([\w-]+)', err)
    if m:
        kind = m.group(1)
    m2 = re.search(r'runtime error: ([^\n]{0,60})', err)
    if m2:
        kind = 'ub:' + re.sub(r"[-0-9.'\"e+]+", '#', m2.group(1)).strip()
    m3 = re.search(r'Assertion [`\'](.*?)\' failed', err)
    if m3:
        kind = 'assert'
    if 'VH-HANG' in err:
        kind = 'hang'
    if not kind:
        kind = 'exit%d' % rc
    frame = ''
    for fm in re.finditer(r'#\d+ 0x[0-9a-f]+ in ([\w:~]+)[^\n]*? ([^\s]+?):(\d+)', err):
        fn, f = fm.group(1), fm.group(2)
        if '/.build/' in f and '/harness/' not in f:
            frame = fn
            break
    if not frame and m3:
        mm = re.search(r'(\w+\.\w+):\d+: (.*?): Assertion', err)
        frame = re.sub(r'\(.*', '', mm.group(2)).split()[-1] if mm else ''
    return 'crash:%s:%s' % (kind, frame)

def run_shard(cmd, cwd, out, timeout):
    env = dict(os.environ)
    env.update(ENV_SAN)
    env['LC_ALL'] = 'C'
    env['TZ'] = 'UTC'
    errp = out + '.err'
    with open(errp, 'wb') as ef, open(os.devnull, 'rb') as dn:
        try:
            p = subprocess.Popen(cmd, cwd=cwd, stdin=dn, stdout=ef, stderr=ef, env=env)
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            rc = 'timeout'
    with open(errp, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        err = f.read().decode(errors='replace')
    return rc, err

def run_stage(prop, stage, tier, seed, outdir):
    if stage.get('py'):
        d = build_lib(stage['flavour']) if stage.get('flavour') else None
        base = [sys.executable, os.path.join(HERE, 'harness', stage['py'])]
        name = os.path.splitext(stage['py'])[0]
    else:
        exe, d = compile_driver(prop, stage)
        base = [exe]
        name = os.path.splitext(stage['driver'])[0]
    td = build_tools(stage, d) if stage.get('tools') else ''
    name += '_' + (stage.get('flavour') or 'py') + ('_' + stage['mode'] if stage.get('mode') else '')
    nsh = min(stage.get('shards', 8), 64)     # fixed: the cases explored must not depend on the machine
    jobs = []
    for i in range(nsh):
        out = os.path.join(outdir, '%s.%d.json' % (name, i))
        wd = os.path.join(outdir, '%s.%d.wd' % (name, i))
        os.makedirs(wd, exist_ok=True)
        cmd = base + ['--seed', str(seed), '--shard', '%d/%d' % (i, nsh), '--tier', tier,
                      '--out', out, '--repo', d or REPO, '--work', wd, '--mode', stage.get('mode', ''), '--tools', td]
        jobs.append((cmd, wd, out))
    tmo = stage.get('timeout', 700 if tier == 'quick' else 7200)
    vios, merged = [], dict(evals=0, nontrivial=0, counters={}, required={}, samples=[])
    hashes = set()

    def one(j):
        rc, err = run_shard(j[0], j[1], j[2], tmo)
        if rc == 78 or (isinstance(rc, int) and rc not in (0, 5) and 'VH-HANG' in err):
            rc, err = run_shard(j[0], j[1], j[2], tmo)      # confirm a hang once
        return j, rc, err
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, jobs))
    for (cmd, wd, out), rc, err in results:
        if rc == 'timeout':
            raise HarnessError('%s: watchdog fired (inconclusive)' % name)
        if os.path.exists(out + '.vio'):
            for line in open(out + '.vio', errors='replace'):
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                v['cmd'] = cmd
                vios.append(v)
        if rc != 0:
            if rc == 5 or rc == 126 or rc == 127 or (stage.get('py') and rc != 0):
                sys.stderr.write(err[-3000:])
                raise HarnessError('%s: driver error %s' % (name, rc))
            curcase = ''
            try:
                curcase = open(out + '.cur', 'rb').read().split(b'\0')[0].decode(errors='replace')
            except OSError:
                pass
            vios.append(dict(key=crash_key(err, rc), detail='driver ended with status %s' % rc,
                             case=curcase, cmd=cmd, report=err[:6000]))
            merged['evals'] += 1
            continue
        r = json.load(open(out))
        merged['evals'] += r['evals']
        merged['nontrivial'] += r['nontrivial']
        for k, v in r['counters'].items():
            merged['counters'][k] = merged['counters'].get(k, 0) + v
        for k, v in r['required'].items():
            merged['required'][k] = v
        merged['samples'] += r['samples'][:max(2, 24 // nsh)]
        if os.path.exists(out + '.hash'):
            a = array.array('Q')
            with open(out + '.hash', 'rb') as f:
                a.frombytes(f.read())
            hashes.update(a)
    crashed = any(v['key'].startswith('crash:') for v in vios)
    if not crashed:
        for k, n in merged['required'].items():
            if merged['counters'].get(k, 0) < n:
                merged['inconclusive'] = ('%s: observed only %d of "%s" (need %d): inconclusive'
                                          % (name, merged['counters'].get(k, 0), k, n))
    merged['distinct'] = len(hashes)
    merged['name'] = name
    return merged, vios

def load_known(prop):
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: run.py PROPERTY [quick|thorough]', file=sys.stderr)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    chk = CHECKS[prop]
    t0 = time.time()
    outdir = os.path.join(HERE, '.out', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    stages, vios, err = [], [], None
    for st in chk['stages']:
        if st.get('only') and st['only'] != tier:
            continue
        try:
            m, v = run_stage(prop, st, tier, seed, outdir)
            stages.append(m)
            vios += v
            err = err or m.get('inconclusive')
        except HarnessError as e:
            err = err or str(e)
            break
    known = load_known(prop)
    new, seen_known = {}, {}
    for v in vios:
        if v['key'] in known:
            seen_known.setdefault(v['key'], v)
        else:
            new.setdefault(v['key'], []).append(v)
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get('level', 'exploration'),
              coverage=dict(evaluations=sum(s['evals'] for s in stages),
                            distinct_nontrivial=sum(s['distinct'] for s in stages),
                            rule=chk['rule'],
                            samples=[x for s in stages for x in s['samples'][:10]][:40],
                            observed={s['name']: s['counters'] for s in stages}),
              assumptions=chk.get('assumptions', []), wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[k], k))
    if new:
        rp = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier,
                           rerun='VERIF_SEED=%d python3 run.py %s %s' % (seed, prop, tier),
                           violations=[x for vs in new.values() for x in vs[:3]]), f, indent=1)
        for k, vs in list(new.items())[:20]:
            print('  violated: %s: %s | case: %s' % (k, vs[0].get('detail', '')[:300], vs[0].get('case', '')[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('ERROR property=%s %s' % (prop, err))
        return 2
    if not stages or ev['coverage']['evaluations'] == 0:
        print('ERROR property=%s nothing was observed' % prop)
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (
        prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], wall))
    shutil.rmtree(outdir, ignore_errors=True)
    return 0

if __name__ == '__main__':
    sys.exit(main())
