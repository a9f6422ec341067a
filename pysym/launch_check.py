"""Decides how the launch descriptions connect the programs: they run on symbolic launch arguments, the topics of the real programs are resolved through their remappings, and z3 compares them for every value."""
import sys, os, json, time, types, argparse, subprocess, glob, re, itertools
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE); sys.path.insert(0, V + '/bin')
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
import z3


class Unsupported(Exception):
    pass


# ------------------------------------------------------------ launch stand-ins
class Config:                                        # LaunchConfiguration
    def __init__(self, variable_name, *, default=None): self.name, self.default = variable_name if isinstance(variable_name, str) else text_of(variable_name), default
    def perform(self, context): raise Unsupported('perform')
    def __str__(self): raise Unsupported('a launch argument used as text')
    __format__ = None


def text_of(v):
    v = parts(v)
    if all(isinstance(x, str) for x in v): return ''.join(v)
    raise Unsupported('a computed name')


class Join:
    def __init__(self, seq): self.seq = seq


class Text:
    def __init__(self, text): self.text = text


class Share:
    def __init__(self, package): self.package = package


def parts(v):
    """A substitution as a list of texts and launch arguments."""
    if isinstance(v, (str, Config)): return [v]
    if isinstance(v, os.PathLike): return [str(v)]
    if isinstance(v, Text): return [v.text]
    if isinstance(v, Share): return ['$SHARE/' + text_of(v.package)]
    if isinstance(v, Join):
        out = []
        for k, x in enumerate(v.seq): out += (['/'] if k else []) + parts(x)
        return out
    if isinstance(v, (list, tuple)): return [y for x in v for y in parts(x)]
    raise Unsupported('substitution ' + type(v).__name__)


class NodeAction:
    def __init__(self, *, executable=None, package=None, name=None, namespace=None, exec_name=None, parameters=None, remappings=None, ros_arguments=None, arguments=None, output=None, emulate_tty=None, respawn=None, respawn_delay=None, sigterm_timeout=None, sigkill_timeout=None, on_exit=None, prefix=None, additional_env=None, env=None, condition=None, **kw):
        if condition is not None or ros_arguments or arguments or kw: raise Unsupported('node with ' + ', '.join(sorted(kw) or ['condition or arguments']))
        self.package, self.executable, self.name, self.namespace = package, executable, name, namespace
        self.parameters, self.remappings = list(parameters or []), list(remappings or [])


class Argument:
    def __init__(self, name, *, default_value=None, description=None, choices=None, **kw):
        if choices or kw: raise Unsupported('launch argument with choices')
        self.name, self.default = name, default_value


class Group:
    def __init__(self, actions, **kw):
        if kw: raise Unsupported('group with ' + ', '.join(kw))
        self.actions = list(actions)


class Description:
    def __init__(self, initial_entities=None, **kw): self.entities = list(initial_entities or [])
    def add_action(self, a): self.entities.append(a)
    def add_entity(self, a): self.entities.append(a)


class Quiet:
    def __init__(self, *a, **k): pass


def modules():
    class Mod(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'): raise AttributeError(n)
            def no(*a, **k): raise Unsupported(n)
            return no
    def mod(n, **kw): m = Mod(n); m.__dict__.update(kw); m.__path__ = []; return m
    L = mod('launch', LaunchDescription=Description); L.actions = mod('launch.actions', DeclareLaunchArgument=Argument, GroupAction=Group, LogInfo=Quiet, SetEnvironmentVariable=Quiet)
    L.substitutions = mod('launch.substitutions', LaunchConfiguration=Config, TextSubstitution=lambda *, text: Text(text), PathJoinSubstitution=Join)
    R = mod('launch_ros', ); R.actions = mod('launch_ros.actions', Node=NodeAction); R.substitutions = mod('launch_ros.substitutions', FindPackageShare=lambda package: Share(package))
    A = mod('ament_index_python', get_package_share_directory=lambda p: '$SHARE/' + p); A.packages = mod('ament_index_python.packages', get_package_share_directory=lambda p: '$SHARE/' + p)
    out = {}
    for r in (L, R, A):
        out[r.__name__] = r
        for k, v in list(r.__dict__.items()):
            if isinstance(v, Mod): out[v.__name__] = v
    return out


def run_launch(repo, path):
    mods = modules(); saved = {k: sys.modules.get(k) for k in mods}; sys.modules.update(mods); cwd = os.getcwd(); os.chdir(repo)
    try:
        m = types.ModuleType('launch_file'); m.__file__ = path
        exec(compile(open(path).read(), path, 'exec'), m.__dict__)
        d = m.generate_launch_description()
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return d.entities


def flat(es):
    for e in es:
        if isinstance(e, Group): yield from flat(e.actions)
        elif isinstance(e, Quiet): pass
        elif isinstance(e, (NodeAction, Argument)): yield e
        else: raise Unsupported('launch action ' + type(e).__name__)


def xml_parts(s):
    out = []
    for k, t in enumerate(re.split(r'\$\(\s*(\w[\w-]*)\s+([^)]*?)\s*\)', s)):
        out.append(t)
    r = []
    for k in range(0, len(out), 3):
        if out[k]: r.append(out[k])
        if k + 2 < len(out):
            if out[k + 1] == 'var': r.append(Config(out[k + 2]))
            elif out[k + 1] == 'find-pkg-share': r.append(Share(out[k + 2]))
            else: raise Unsupported('$(%s)' % out[k + 1])
    return r


def run_xml(repo, path):
    out = []
    def walk(n):
        for e in n:
            if not isinstance(e.tag, str): continue
            if set(e.attrib) & {'if', 'unless'}: raise Unsupported('condition')
            if e.tag == 'arg': out.append(Argument(e.attrib['name'], default_value=xml_parts(e.attrib['default']) if 'default' in e.attrib else None))
            elif e.tag == 'let': out.append(Argument(e.attrib['name'], default_value=xml_parts(e.attrib['value']))); out[-1].fixed = True
            elif e.tag == 'group': walk(e)
            elif e.tag == 'node':
                params, remaps = [], []
                for c in e:
                    if not isinstance(c.tag, str): continue
                    if c.tag == 'remap': remaps.append((xml_parts(c.attrib['from']), xml_parts(c.attrib['to'])))
                    elif c.tag == 'param' and 'name' in c.attrib: params.append({c.attrib['name']: xml_parts(c.attrib['value'])})
                    elif c.tag == 'param': params.append(xml_parts(c.attrib['from']))
                    else: raise Unsupported('<%s>' % c.tag)
                out.append(NodeAction(package=e.attrib['pkg'], executable=e.attrib['exec'], name=e.attrib.get('name'), namespace=e.attrib.get('namespace'), parameters=params, remappings=remaps))
            else: raise Unsupported('<%s>' % e.tag)
    walk(ET.parse(path).getroot()); return out


# -------------------------------------------------------------- what programs do
PROGRAMS = {   # package and executable: number in harness/endpoints.cpp, its sources
    ('lidar_feature_extraction', 'lidar_feature_extraction'): (1, ['lib/src/*.cpp', 'extraction/src/*.cpp']),
    ('lidar_feature_localization', 'lidar_feature_localization'): (2, ['lib/src/*.cpp', 'rotationlib/src/**/*.cpp', 'localization/src/*.cpp']),
    ('lidar_feature_mapping', 'lidar_feature_mapping'): (3, ['lib/src/*.cpp', 'rotationlib/src/**/*.cpp']),
    ('ekf_localizer', 'ekf_localizer'): (4, ['lib/src/*.cpp', 'rotationlib/src/**/*.cpp', 'kalman_filter/src/*.cpp', 'ekf_localizer/src/*.cpp']),
    ('lidar_feature_map_loader', 'lidar_feature_map_loader'): (5, ['lib/src/*.cpp']),
    ('map_tf_generator', 'map_tf_generator'): (6, ['lib/src/*.cpp'])}
CONVERTER = ('point_type_converter', 'listener')


def build(repo, keys, work):
    os.environ['VH_REPO'] = repo
    import check
    os.makedirs(check.CACHE, exist_ok=True)
    flags = check.NAF + ['-DVH_ENDPOINTS=1']; plain = ('lib/', 'rotationlib/', 'kalman_filter/'); jobs = {}; libs = {}
    with ThreadPoolExecutor(8) as ex:
        for k in keys:
            n, pats = PROGRAMS[k]; s = sorted({f for p in pats for f in glob.glob(os.path.join(repo, p), recursive=True)} - {os.path.join(repo, 'ekf_localizer/src/ekf_localizer_node.cpp')})
            jobs[k] = [ex.submit(check.compile_one, V + '/harness/endpoints.cpp', flags + ['-DPROGRAM=%d' % n], '.o')]; libs[k] = [f for f in s]
        objs = {f: ex.submit(check.compile_one, f, check.NAF if os.path.relpath(f, repo).startswith(plain) else flags, '.o') for f in sorted({f for l in libs.values() for f in l})}
        def link(k):
            os_ = [j.result() for j in jobs[k]] + [objs[f].result() for f in libs[k]]
            return check.link('endpoints%d' % PROGRAMS[k][0], lambda o: ['clang++', '-fsanitize=address,float-cast-overflow', '-o', o] + os_ + check.NALIB, os_)
        return {k: v for k, v in zip(keys, map(link, keys))}


def endpoints(binary, params, work):
    cmd = [binary]
    for k, v in params.items(): cmd += ['s', k, v] if isinstance(v, str) else ['d', k, repr(float(v))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=work, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    rows = [l.split('\t') for l in r.stdout.decode(errors='replace').splitlines()]
    done = [x for x in rows if x[0] == 'exit']
    if not done: return None, None, r.stderr.decode(errors='replace')[-400:]
    return [dict(kind=x[0], topic=x[1], type=x[2], reliable=x[3] == '1', transient=x[4] == '1') for x in rows if x[0] in ('pub', 'sub')], {x[1]: x[2] for x in rows if x[0] == 'param'}, None if done[0][1] == '0' else 'ends with ' + done[0][1]


def converter_endpoints(repo):
    import convert_check as cc
    log = []
    qos = lambda q: dict(reliable=str(getattr(q, 'reliability', 'RELIABLE')).upper().find('BEST') < 0, transient='TRANSIENT' in str(getattr(q, 'durability', '')).upper())
    keep = cc.Node
    class N(keep):
        def create_subscription(self, t, topic, cb, q, **k): log.append(dict(kind='sub', topic=topic, type='sensor_msgs::msg::' + t.__name__, **qos(q))); return keep.create_subscription(self, t, topic, cb, q)
        def create_publisher(self, t, topic, q, **k): log.append(dict(kind='pub', topic=topic, type='sensor_msgs::msg::' + t.__name__, **qos(q))); return keep.create_publisher(self, t, topic, q)
    cc.Node = N
    try: m, _ = cc.load(repo, False); m.PointTypeConverter()
    finally: cc.Node = keep
    return log


# ------------------------------------------------------------------- the claim
S, PUB, SUB = z3.StringVal, 'pub', 'sub'
X, LO, MA, EK, ML, TF, CO = 'extraction', 'localization', 'mapping', 'ekf', 'loader', 'viewer', 'converter'
ROLE = {('lidar_feature_extraction', 'lidar_feature_extraction'): X, ('lidar_feature_localization', 'lidar_feature_localization'): LO, ('lidar_feature_mapping', 'lidar_feature_mapping'): MA, ('ekf_localizer', 'ekf_localizer'): EK, ('lidar_feature_map_loader', 'lidar_feature_map_loader'): ML, ('map_tf_generator', 'map_tf_generator'): TF, CONVERTER: CO}
FRONT = [('sensor points', [(CO, SUB, 'points_raw')], ('input_sensor_points_topic', '/points_raw')), ('converted points', [(CO, PUB, 'points_converted'), (X, SUB, 'points_raw')], None)]
CLAIM = {
    'h_localization_launch': ('lidar_feature_launch/launch/localization.launch.py', [CO, X, LO, EK, ML, ML], FRONT + [
        ('edge scan', [(X, PUB, 'scan_edge'), (LO, SUB, 'scan_edge')], None), ('surface scan', [(X, PUB, 'scan_surface'), (LO, SUB, 'scan_surface')], None),
        ('lidar pose', [(LO, PUB, 'estimated_pose'), (EK, SUB, 'in_pose_with_covariance')], ('lidar_feature_pose_topic', '/lidar_feature_pose')),
        ('prior', [(EK, PUB, 'ekf_odom'), (LO, SUB, 'optimization_start_odom')], ('ekf_odometry', '/ekf_odom')),
        ('initial pose', [(EK, SUB, 'initialpose')], ('input_initial_pose_topic', '/initialpose3d')), ('twist', [(EK, SUB, 'in_twist_with_covariance')], ('input_twist_topic', '/twist')),
        ('edge map', [(ML + ':maps/edge.pcd', PUB, 'map_topic')], ('edge_map_topic', '/edge_map')), ('surface map', [(ML + ':maps/surface.pcd', PUB, 'map_topic')], ('surface_map_topic', '/surface_map'))], []),
    'h_mapping_launch': ('lidar_feature_launch/launch/mapping.launch.py', [CO, X, MA], FRONT + [('edge scan', [(X, PUB, 'scan_edge'), (MA, SUB, 'scan_edge')], None), ('pose', [(MA, SUB, 'pose')], ('input_pose_topic', '/pose'))], []),
    'h_viewer_launch': ('map_tf_generator/launch/map_tf_generator.launch.xml', [TF], [('map', [(TF, SUB, 'pointcloud_map')], ('input_map_points_topic', '/map/pointcloud_map'))], [('map_frame', 'map'), ('viewer_frame', 'viewer')])}


class Args:
    """Each launch argument may be given, with any topic name, or be left to its default."""
    def __init__(self, declared, given=None): self.declared, self.given, self.seen = declared, given, {}
    def value(self, c):
        d = self.declared.get(c.name)
        if d is not None and getattr(d, 'fixed', False): return self.text(d.default)
        default = d.default if d is not None else c.default
        g, v = self.sym(c.name)
        if default is None: raise Missing(c.name)
        dv = self.text(default)
        if self.given is not None: return S(self.given[c.name]) if c.name in self.given else dv
        return z3.If(g, v, dv)
    def sym(self, n):
        if n not in self.seen: self.seen[n] = (z3.Bool('given_' + n), z3.String('value_' + n))
        return self.seen[n]
    def text(self, v):
        ts = [S(p) if isinstance(p, str) else self.value(p) for p in parts(v)]
        return ts[0] if len(ts) == 1 else z3.Concat(*ts) if ts else S('')
    def expected(self, name, default):
        g, v = self.sym(name)
        if self.given is not None: return S(self.given.get(name, default))
        return z3.If(g, v, S(default))


class Missing(Exception):
    pass


def fqn(t, ns):
    return z3.simplify(z3.If(z3.PrefixOf(S('/'), t), t, z3.Concat(S(ns + '/'), t)))


def static_text(v, what):
    ps = parts(v)
    if not all(isinstance(p, str) for p in ps): raise Unsupported('computed ' + what)
    return ''.join(ps)


class World:
    def __init__(self, run, repo, entry, given=None):
        self.run, self.repo = run, repo; rel, self.want, self.groups, self.texts = CLAIM[entry]; self.path = os.path.join(repo, rel)
        es = list(flat(run_xml(repo, self.path) if rel.endswith('.xml') else run_launch(repo, self.path)))
        self.args = Args({e.name: e for e in es if isinstance(e, Argument)}, given); self.nodes = []
        for e in es:
            if not isinstance(e, NodeAction): continue
            key = (static_text(e.package, 'package'), static_text(e.executable, 'executable'))
            if key not in ROLE: continue
            ns = static_text(e.namespace, 'namespace') if e.namespace is not None else ''; ns = ('/' + ns.strip('/')) if ns.strip('/') else ''
            name = static_text(e.name, 'name') if e.name is not None else key[1]
            self.nodes.append(dict(key=key, role=ROLE[key], ns=ns, name=name, params=self.params(e, ns, name), remaps=[(static_text(a, 'topic'), b) for a, b in e.remappings]))
    def params(self, e, ns, name):
        out = {}
        for p in e.parameters:
            if isinstance(p, dict):
                for k, v in p.items(): out[static_text(k, 'parameter')] = v if isinstance(v, (bool, int, float)) else ('text', v)
            else:
                import yaml
                f = static_text(p, 'parameter file'); f = re.sub(r'^\$SHARE/', '', f); f = f if os.path.isabs(f) else os.path.join(self.repo, f)
                if not os.path.exists(f): raise Broken('parameter-file-exists', f)
                y = yaml.safe_load(open(f)) or {}
                for k, v in y.items():
                    if k in ('/**', name, '/' + name, ns + '/' + name): out.update({a: (('text', b) if isinstance(b, str) else b) for a, b in (v.get('ros__parameters') or {}).items()})
        return out
    def topic(self, node, name):
        full = name if name.startswith('/') else node['ns'] + '/' + name
        for a, b in node['remaps']:
            if a.startswith('~'): raise Unsupported('private name')
            if full == (a if a.startswith('/') else node['ns'] + '/' + a): return fqn(self.args.text(b), node['ns'])
        return S(full)


class Broken(Exception):
    def __init__(self, label, detail=''): Exception.__init__(self, label + ' ' + detail); self.label, self.detail = label, detail


def facts(run, w):
    """Shape and the conditions to decide: (label, condition that has to hold for every argument, assumptions)."""
    roles = sorted(n['role'] for n in w.nodes)
    if roles != sorted(w.want): raise Broken('programs-of-the-pipeline', ' '.join(roles))
    eps = []
    for n in w.nodes:
        if n['key'] == CONVERTER: es, decl, bad = converter_endpoints(w.repo), {}, None
        else:
            conc = {k: (static_default(w, v) if isinstance(v, tuple) else v) for k, v in n['params'].items()}
            es, decl, bad = endpoints(run.bins[n['key']], conc, run.work)
            if bad and endpoints(run.bins[n['key']], {k: v for k, v in conc.items() if k == 'pcd_filename'}, run.work)[2]: raise Unsupported('%s does not start: %s' % (n['role'], bad))
            if bad: raise Broken('program-starts-with-its-parameters', '%s: %s' % (n['role'], bad))
            for k, v in n['params'].items():
                if k == 'use_sim_time': continue
                if k not in decl: raise Broken('parameter-is-one-of-the-program', n['role'] + ' ' + k)
                t = 'str' if isinstance(v, tuple) else type(v).__name__
                if t != decl[k]: raise Broken('parameter-has-the-type-of-the-program', '%s %s: %s, declared %s' % (n['role'], k, t, decl[k]))
        role = n['role']
        if role == ML: role += ':' + static_text(n['params'].get('pcd_filename', ('text', ''))[1], 'map file')
        for e in es: eps.append(dict(e, role=role, node=n, base=e['topic'].lstrip('/'), at=w.topic(n, e['topic'])))
    used = set(); groups = []
    for title, members, arg in w.groups:
        ms = []
        for role, kind, base in members:
            f = [k for k, e in enumerate(eps) if (e['role'], e['kind'], e['base']) == (role, kind, base)]
            if len(f) != 1: raise Broken('every-stream-has-its-ends', '%s: %s %s of %s' % (title, kind, base, role))
            used.add(f[0]); ms.append(eps[f[0]])
        groups.append((title, ms))
        for p, s in itertools.product(ms, ms):
            if p['kind'] == PUB and s['kind'] == SUB:
                if p['type'] != s['type']: raise Broken('same-message-type', '%s: %s and %s' % (title, p['type'], s['type']))
                if (s['reliable'] and not p['reliable']) or (s['transient'] and not p['transient']): raise Broken('compatible-quality-of-service', title)
                yield 'connected: ' + title, p['at'] == s['at'], []
        if arg: yield 'named-by-its-argument: ' + title, ms[0]['at'] == fqn(w.args.expected(*arg), ''), []
    for n, d in w.texts:
        node = w.nodes[0]; v = node['params'].get(n)
        if not isinstance(v, tuple): raise Broken('named-by-its-argument: ' + n)
        yield 'named-by-its-argument: ' + n, w.args.text(v[1]) == w.args.expected(n, d), []
    ends = groups + [('%s %s' % (e['role'], e['base']), [e]) for k, e in enumerate(eps) if k not in used]
    names = {x for e in eps for x in literals(e['at'])} | {d for _, _, a in w.groups if a for d in [a[1]]}
    apart = []; vs = [v for n, (g, v) in sorted(w.args.seen.items())]
    for k, v in enumerate(vs):
        f = fqn(v, ''); apart += [f != S(x if x.startswith('/') else '/' + x) for x in sorted(names)] + [f != fqn(u, '') for u in vs[:k]]
    for (t1, a), (t2, b) in itertools.combinations(ends, 2):
        for p, s in [(p, s) for p in a for s in b] + [(p, s) for p in b for s in a]:
            if p['kind'] == PUB: yield 'nothing-else: %s and %s' % tuple(sorted((t1, t2))), p['at'] != s['at'], apart


def static_default(w, v):
    a = Args(w.args.declared, {}); r = z3.simplify(a.text(v[1]))
    return r.as_string() if z3.is_string_value(r) else ''


def literals(t):
    if z3.is_string_value(t): return {t.as_string()}
    return {x for c in t.children() for x in literals(c)}


class Run:
    pass


def valid(args):
    name = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_')); rest = z3.Star(z3.Union(name, z3.Range('0', '9'), z3.Re('/'))); r = z3.Concat(z3.Re('/'), name, rest)
    return [z3.And(z3.InRe(v, r), z3.Length(v) <= 40) for _, v in args.seen.values()]


def concrete(run, repo, entry, label, given):
    """The claim of that label for one choice of arguments; returns what fails or None."""
    try:
        w = World(run, repo, entry, given)
        for l, cond, _ in facts(run, w):
            if l == label and not z3.is_true(z3.simplify(cond)): return l
    except Broken as e: return str(e)
    except Missing as e: return 'argument-has-a-default ' + str(e)
    return None


def main():
    ap = argparse.ArgumentParser()
    for a in ('entry', 'out', 'repo', 'work', 'replay'): ap.add_argument('--' + a)
    ap.add_argument('--timeout', type=float, default=240); ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args(); t0 = time.time(); run = Run(); j = None
    if a.replay: j = json.load(open(a.replay)); a.entry = j['entry']; a.repo = a.repo or '/repo'; a.work = a.work or '/tmp'
    run.work = a.work; keys = [k for k in PROGRAMS if ROLE[k] in CLAIM[a.entry][1]]
    s = dict(paths=1, paths_done=0, dropped=0, infeasible=0, asserts=0, asserts_ok=0, asserts_trivial=0, asserts_unknown=0, unsupported=0, violations=0, unconfirmed=0, validated=0, mismatched=0, cache=0)
    out = open(a.out, 'w') if a.out else sys.stdout; emit = lambda **k: (out.write(json.dumps(k) + '\n'), out.flush())
    if j:
        run.bins = build(a.repo, keys, a.work); r = concrete(run, a.repo, a.entry, j['label'], j['given']); print(r or 'held'); return 1 if r else 0
    cnt = dict(sat=0, unsat=0, unknown=0); solver_s = 0.; reach = {}; seen = set()

    def violation(label, given, native):
        if label in seen: return
        seen.add(label); s['violations'] += 1; f = os.path.join(a.work, 'replay_%d.json' % s['violations']); json.dump(dict(entry=a.entry, label=label, given=given), open(f, 'w'))
        emit(t='violation', msg=label, kind='assert', loc=os.path.join(a.repo, CLAIM[a.entry][0]), file=f, native=native)
    try:
        run.bins = build(a.repo, keys, a.work)
        w = World(run, a.repo, a.entry)
        for label, cond, assume in facts(run, w):
            so = z3.Solver(); so.set('timeout', 20000); s['asserts'] += 1
            for c in valid(w.args) + assume: so.add(c)
            so.add(z3.Not(cond)); t = time.time(); r = so.check(); solver_s += time.time() - t; cnt[str(r)] += 1
            reach[label.split(':')[0]] = reach.get(label.split(':')[0], 0) + 1
            if r == z3.unsat:
                s['asserts_ok'] += 1
                if s['validated'] < 12:      # the same through a run on concrete arguments
                    g = {n: '/given/' + n for k, n in enumerate(w.args.seen) if (s['validated'] >> (k % 4)) & 1}; x = concrete(run, a.repo, a.entry, label, g)
                    s['validated' if x is None else 'mismatched'] += 1; emit(t='validation', ok=x is None, inputs=label + ' ' + json.dumps(g))
            elif r == z3.unknown: s['asserts_unknown'] += 1; emit(t='unknown', msg=label)
            else:
                m = so.model(); given = {n: m.eval(v, model_completion=True).as_string() for n, (g, v) in w.args.seen.items() if z3.is_true(m.eval(g, model_completion=True))}
                x = concrete(run, a.repo, a.entry, label, given)
                if x: violation(label, given, 'launched with %s: %s does not hold: %s' % (json.dumps(given), x, cond))
                else: s['unconfirmed'] += 1; emit(t='unconfirmed', msg=label, inputs=json.dumps(given))
        s['paths_done'] = 1
    except Broken as e: violation(e.label, {}, str(e))
    except Missing as e: violation('argument-has-a-default ' + str(e), {}, 'launched without arguments')
    except Exception as e:
        s['unsupported'] += 1; emit(t='unsupported', msg='%s: %s' % (type(e).__name__, str(e)[-600:]))
    emit(t='fn', name=CLAIM[a.entry][0] + ': generate_launch_description' if CLAIM[a.entry][0].endswith('.py') else CLAIM[a.entry][0])
    s['instrs'] = s['asserts']
    emit(t='summary', **s, queries=sum(cnt.values()), unknown=cnt['unknown'], sat=cnt['sat'], unsat=cnt['unsat'], solver_s=round(solver_s, 3), wall_s=round(time.time() - t0, 2), reach=reach)


if __name__ == '__main__':
    sys.exit(main())
