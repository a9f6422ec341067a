#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--only ENTRY] : decide one property on /repo's current tree."""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, threading, tempfile, fnmatch
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import specs
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CACHE = os.path.join(BUILD, 'cache')
NJ = os.cpu_count() or 8
PKGS = ['lib', 'rotationlib', 'kalman_filter', 'extraction', 'localization', 'ekf_localizer', 'mapping', 'path_generator', 'map_loader', 'map_tf_generator', 'imu_integration']
INC = ['-I' + V + '/rt', '-I' + V + '/stubs', '-I' + V + '/harness'] + ['-I%s/%s/include' % (REPO, p) for p in PKGS] + ['-I' + REPO, '-isystem', '/usr/include/pcl-1.14', '-isystem', '/usr/include/eigen3']
COMMON = ['-std=c++17', '-w', '-ferror-limit=0', '-DPCL_NO_PRECOMPILE', '-D_GLIBCXX_ASSERTIONS', '-DVH=1', '-DEIGEN_HAS_ALIGNAS=0', '-fno-strict-aliasing', '-ffp-contract=off', '-include', V + '/rt/std.h']
BCF = COMMON + ['-O1', '-gline-tables-only', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-math-errno', '-U__SSE2__', '-U__SSE__', '-U__SSE3__', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID',
                '-DEIGEN_MAX_ALIGN_BYTES=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVH_SYM=1', '-fno-threadsafe-statics', '-fno-unroll-loops', '-fno-pie']
NAF = COMMON + ['-O1', '-g', '-fsanitize=address,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
NALIB = ['-rdynamic', '-ldl', '-Wl,--as-needed', '-lpcl_common', '-lpcl_filters', '-lpcl_io', '-lpthread']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-400000:]))
    return r.stdout


def compile_one(src, flags, ext):
    pre = subprocess.run(['clang++', '-E'] + [f for f in flags if f not in ('-emit-llvm',)] + INC + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError('preprocessing %s\n%s' % (src, pre.stderr.decode(errors='replace')[-4000:]))
    h = hashlib.sha256(pre.stdout + ' '.join(flags).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + ext)
    if not os.path.exists(out):
        tmp = '%s.%d.%d' % (out, os.getpid(), threading.get_ident())
        run(['clang++'] + flags + INC + ['-c', src, '-o', tmp])
        os.replace(tmp, out)
    return out


def sources(unit):
    u = specs.UNITS[unit]
    out = []
    for pat in u.get('src', []):
        neg = [f for p in u.get('exclude', []) for f in glob.glob(os.path.join(REPO, p), recursive=True)]
        out += [f for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)) if f not in neg]
    return out


def build_engine():
    if not os.path.exists(BUILD + '/symx') or any(os.path.getmtime(f) > os.path.getmtime(BUILD + '/symx') for f in glob.glob(V + '/engine/*.[ch]*')):
        run(['make', '-B', '-C', V + '/engine', 'OUT=' + BUILD])


def link(name, cmd_of, objs):
    h = hashlib.sha256((name + ' '.join(cmd_of('X')) + ' '.join(objs)).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + '.' + name)
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        run(cmd_of(tmp))
        os.replace(tmp, out)
    return out


def regions(text):
    """Top-level function definitions of a harness: (first line, last line, entry name or None)."""
    clean = re.sub(r'R"\((.*?)\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    out, depth, start, line, ns = [], 0, 1, 1, []
    head = ''
    for ch in clean:
        if ch == '{':
            if depth == len(ns) and re.search(r'\bnamespace\b[^;(]*$|extern\s+$', head):
                ns.append(depth)
            depth += 1
            if depth == len(ns):
                head, start = '', line
        elif ch == '}':
            depth -= 1
            if depth < len(ns):
                ns.pop(); head, start = '', line
            elif depth == len(ns) and ')' in head:
                m = re.search(r'\b(h_\w+)\s*\(\)\s*$', head)
                out.append((start, line, m.group(1) if m else None)); head = ''
        elif depth == len(ns):
            if ch == ';' or ch == '}':
                head = ''
            elif ch.strip():
                if not head: start = line
                head += ch
            elif head:
                head += ' '
        if ch == '\n':
            line += 1
            if depth == len(ns) and head.startswith('#'): head = ''
    return out


def without_broken_entries(har, broken, dropped):
    """The harness without the functions that contain one of the lines in broken; None if a line lies outside them."""
    text = open(har).read(); lines = text.split('\n'); rs = regions(text)
    for b in broken:
        r = next((r for r in rs if r[0] <= b <= r[1]), None)
        if r is None:
            return None
        if r[2]: dropped.add(r[2])
        for k in range(r[0] - 1, r[1]): lines[k] = ''
    new = '\n'.join(lines)
    out = os.path.join(CACHE, 'slim_%s_%s' % (hashlib.sha256(new.encode()).hexdigest()[:16], re.sub(r'^slim_[0-9a-f]+_', '', os.path.basename(har))))
    tmp = '%s.%d' % (out, os.getpid()); open(tmp, 'w').write(new); os.replace(tmp, out)
    return out


def build_unit(unit, thorough, dropped=None):
    """build_unit_with, with the define in fallback where that leaves fewer functions out."""
    dropped = set() if dropped is None else dropped
    fallback = specs.UNITS[unit].get('fallback')
    left, res, err = set(), None, None
    try:
        res = build_unit_with(unit, thorough, left, [])
    except BuildError as ex:
        err = ex
    if fallback and (err or left):
        left2 = set()
        try:
            res2 = build_unit_with(unit, thorough, left2, ['-D' + fallback])
            if err or len(left2) < len(left):
                res, left, err = res2, left2, None
        except BuildError:
            pass
    if err:
        raise err
    dropped |= left
    return res


def build_unit_with(unit, thorough, dropped, defs):
    """Bitcode and native binary. A harness function that no longer fits the code (a renamed helper, say) is left out and named in dropped."""
    har = os.path.join(V, 'harness', specs.UNITS[unit]['harness'])
    for attempt in range(12):
        try:
            return build_unit_once(unit, thorough, har, defs)
        except BuildError as ex:
            f = re.escape(har)
            broken = {int(x) for x in re.findall(r'^' + f + r':(\d+):\d+: (?:fatal )?error:', str(ex), re.M)}
            broken |= {int(x) for x in re.findall(r'^' + f + r':(\d+):\d+: note: in instantiation', str(ex), re.M)}
            broken |= {int(x) for x in re.findall(r'(?:^|[ (])' + f + r':(\d+):(?:\([^)]*\):)? (?:undefined|more undefined)', str(ex), re.M)}
            slim = without_broken_entries(har, broken, dropped) if broken else None
            if slim is None:
                raise
            har = slim
    raise BuildError('harness does not build')


def build_unit_once(unit, thorough, har, defs=()):
    extra = (['-DTHOROUGH=1'] if thorough else []) + list(defs)
    srcs = sources(unit)
    jobs = [(har, BCF + extra, '.bc')] + [(s, BCF, '.bc') for s in srcs] + [(V + '/rt/runtime.cpp', BCF, '.bc')]
    njobs = [(har, NAF + extra, '.o')] + [(s, NAF, '.o') for s in srcs] + [(V + '/rt/native.cpp', COMMON + ['-O1', '-g'], '.o')]
    with ThreadPoolExecutor(NJ) as ex:
        f1 = [ex.submit(compile_one, *j) for j in jobs]
        f2 = [ex.submit(compile_one, *j) for j in njobs]
        bcs = [f.result() for f in f1]
        os_ = [f.result() for f in f2]
    bc = link('bc', lambda o: ['llvm-link-18', '-o', o] + bcs, bcs)
    nat = link('native', lambda o: ['clang++', '-fsanitize=address,float-cast-overflow', '-o', o] + os_ + NALIB, os_)
    return bc, nat


def load_findings():
    kn = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) label=(\S+) (.*)', l.strip())
            if m:
                kn.append(m.groups())
    return kn


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'quick'
    only = None
    i = 1
    while i < len(a):
        if a[i] == '--only':
            only = a[i + 1]; i += 1
        elif a[i] in ('quick', 'thorough'):
            tier = a[i]
        i += 1
    thorough = tier == 'thorough'
    t0 = time.time()
    spec = specs.PROPS[pid]
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    entries = [e for e in spec['entries'] if (only is None or e['name'] == only) and (thorough or not e.get('thorough_only'))]
    build_engine()
    built = {}
    dropped = set()
    try:
        for u in dict.fromkeys(e['unit'] for e in entries if 'py' not in e):
            built[u] = build_unit(u, thorough, dropped)
    except BuildError as ex:
        print('BUILD FAILED\n%s' % str(ex)[-6000:])
        write_evidence(pid, tier, spec, [], time.time() - t0, 0, ['build failed'])
        return 2
    left_out = [e for e in entries if e['name'] in dropped]
    entries = [e for e in entries if e['name'] not in dropped]
    if not entries:
        print('BUILD FAILED: no harness function fits the code')
        write_evidence(pid, tier, spec, [], time.time() - t0, 0, ['build failed'])
        return 2
    tb = time.time() - t0
    replay_dir = os.path.join(BUILD, 'replay', pid)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir)
    total = spec.get('budget', {}).get(tier, 300 if not thorough else 780)
    deadline = t0 + max(60, total)
    results = []
    lock = threading.Lock()
    npar = max(1, min(len(entries), NJ))

    def go(e):
        w = tempfile.mkdtemp(prefix='w_', dir=BUILD)
        out = os.path.join(w, 'out.jsonl')
        o = dict(timeout=120, qtimeout=10000, jobs=max(2, NJ // min(npar, 4)), maxpaths=200000, maxsteps=60000000, validate=3, narrow=e['mode'] == 'real')
        o.update(e.get('opt', {}))
        if thorough:
            o.update(timeout=o['timeout'] * 4, qtimeout=o['qtimeout'] * 3)
            o.update(e.get('topt', {}))
        o['timeout'] = int(max(10, min(o['timeout'], deadline - time.time())))
        if 'py' in e:
            cmd = ['/opt/veriftools/pyvenv/bin/python3', os.path.join(V, 'pysym', e['py']), '--entry', e['name'], '--out', out, '--repo', REPO, '--work', w, '--timeout', str(o['timeout'])] + (['--thorough'] if thorough else [])
        else:
            bc, nat = built[e['unit']]
            cmd = [BUILD + '/symx', '--mode', e['mode'], '--entry', e['name'], '--native', nat, '--work', w, '--out', out, '--repo', REPO]
            for k, v in o.items():
                if v is True:
                    cmd += ['--' + k]
                elif v is not False:
                    cmd += ['--' + k, str(v)]
            cmd += [bc]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=o['timeout'] + 80, start_new_session=True)
            log = r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as ex:
            log = 'engine timeout'
        recs = []
        if os.path.exists(out):
            for l in open(out, errors='replace'):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        for r in recs:
            if r.get('t') in ('violation', 'notreproduced') and r.get('file'):
                dst = os.path.join(replay_dir, '%s_%s' % (e['name'], os.path.basename(r['file'])))
                try:
                    shutil.copy(r['file'], dst)
                    r['replay'] = dst
                except OSError:
                    r['replay'] = r['file']
        shutil.rmtree(w, ignore_errors=True)
        with lock:
            results.append((e, recs, log))

    with ThreadPoolExecutor(npar) as ex:
        list(ex.map(go, entries))
    order = {e['name']: k for k, e in enumerate(entries)}
    results.sort(key=lambda r: order[r[0]['name']])
    known = load_findings()
    viol = []
    seen_known = set()
    problems = ['%s: not decided, it no longer fits the code it calls' % e['name'] for e in left_out]
    for e, recs, log in results:
        s = next((r for r in recs if r.get('t') == 'summary'), None)
        if s is None:
            problems.append('%s: no summary: %s' % (e['name'], log[-800:]))
            continue
        print('%s [%s]: paths %d done %d dropped %d infeasible %d queries %d (unknown %d) solver %.1fs asserts %d ok %d trivial %d inconclusive %d unsupported %d viol %d unconfirmed %d validated %d mismatched %d narrowed %d wall %.1fs reach %s' % (
            e['name'], e['mode'], s['paths'], s['paths_done'], s['dropped'], s['infeasible'], s['queries'], s['unknown'], s['solver_s'], s['asserts'], s['asserts_ok'], s['asserts_trivial'], s['asserts_unknown'], s['unsupported'], s['violations'], s['unconfirmed'], s['validated'], s['mismatched'], s.get('narrowed', 0), s['wall_s'], s['reach']))
        for r in recs:
            if r.get('t') == 'violation':
                k = next((x for x in known if x[0] == pid and x[1] == e['name'] and x[2] == r['msg'].split()[0]), None)
                if k:
                    if k not in seen_known:
                        print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
                    seen_known.add(k)
                else:
                    viol.append((e, r))
            elif r.get('t') in ('unsupported', 'crash', 'unknown', 'unconfirmed', 'notreproduced') or (r.get('t') == 'validation' and not r.get('ok')):
                problems.append('%s: %s' % (e['name'], json.dumps({k: v for k, v in r.items() if k not in ('inputs',)})[:600]))
        for lab in e.get('reach', []):
            if not s['reach'].get(lab):
                problems.append('%s: label %s was not reached (vacuous)' % (e['name'], lab))
    shown = set()
    for p in problems:
        if p not in shown and len(shown) < 25:
            print('NOTE ' + p)
        shown.add(p)
    done = set()
    for e, r in viol:
        key = (e['name'], r['msg'])
        if key in done:
            continue
        done.add(key)
        print('  %s: %s: %s at %s' % (e['name'], r['kind'], r['msg'], r.get('loc', '')))
        print('  native replay: %s' % (r.get('native', '')[:400].replace('\n', ' | ')))
        print('VIOLATION property=%s replay=%s' % (pid, r.get('replay')))
    write_evidence(pid, tier, spec, results, time.time() - t0, len(done), sorted(shown), tb)
    print('%s %s: %s in %.0fs (build %.0fs)' % (pid, tier, 'VIOLATED' if done else 'held', time.time() - t0, tb))
    return 1 if done else 0


def write_evidence(pid, tier, spec, results, wall, nv, problems, tb=0):
    S = [(e, next((r for r in recs if r.get('t') == 'summary'), None), recs) for e, recs, _ in results]
    S = [x for x in S if x[1]]
    tot = lambda k: sum(s[k] for _, s, _ in S)
    fns = sorted({r['name'] for _, _, recs in S for r in recs if r.get('t') == 'fn'})
    samples = []
    for e, s, recs in S:
        for r in recs:
            if r.get('t') == 'validation' and len(samples) < 40 and sum(1 for x in samples if x['harness'] == e['name']) < 2:
                samples.append({'harness': e['name'], 'inputs': r.get('inputs', '')[:600], 'agrees_with_native_run': r.get('ok')})
    ents = []
    for e, s, recs in S:
        d = {k: s[k] for k in s if k != 't'}
        d['bounds'] = e.get('bounds', '')
        d['claim'] = e.get('claim', '')
        d['conclusive'] = s['asserts_unknown'] == 0 and s['unsupported'] == 0 and s['dropped'] == 0 and s['unconfirmed'] == 0
        ents.append(d)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {
              'states': tot('paths_done'), 'transitions': tot('instrs'), 'traces_validated_against_impl': tot('validated'),
              'samples': samples if samples else [{'note': 'no validated path'}],
              'exhaustive': bool(ents) and not any('not decided' in p for p in problems) and all(d['conclusive'] for d in ents),
              'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'), 'query_cache_hits': tot('cache'),
              'solver_seconds': round(tot('solver_s'), 2),
              'assertions_evaluated_on_paths': tot('asserts'), 'assertions_discharged_by_solver': tot('asserts_ok'), 'assertions_true_by_simplification': tot('asserts_trivial'), 'assertions_inconclusive': tot('asserts_unknown'),
              'functions_encoded': fns, 'harnesses': ents, 'notes': problems[:60], 'build_s': round(tb, 1),
              'explanation': 'states = symbolic paths completed (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically'},
          'assumptions': specs.ASSUME + spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nv}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
