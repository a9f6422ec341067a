"""Decides the point type converter's properties: the real convert.py runs on symbolic message bytes."""
import sys, os, json, time, types, argparse, struct, array, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import numpy as np
import z3
from symcore import *

TYPE = {'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'f32': 7, 'f64': 8}
CH = {1: 'b', 2: 'B', 3: 'h', 4: 'H', 5: 'i', 6: 'I', 7: 'f', 8: 'd'}
XYZ = [('x', 0, 'f32'), ('y', 4, 'f32'), ('z', 8, 'f32')]
LAYOUTS = [  # point step and the fields after x, y, z
    (48, [('intensity', 16, 'f32'), ('t', 20, 'u32'), ('reflectivity', 24, 'u16'), ('ring', 26, 'u8'), ('noise', 28, 'u16'), ('range', 32, 'u32')]),
    (32, [('intensity', 16, 'f32'), ('ring', 20, 'u16')]),
    (24, [('ring', 16, 'u16'), ('intensity', 20, 'f32')]),
    (18, [('ring', 16, 'u8'), ('intensity', 17, 'u8')]),
    (40, [('time', 16, 'f64'), ('ring', 24, 'u16'), ('intensity', 28, 'f32'), ('echo', 33, 'i8')]),
    (26, [('intensity', 16, 'u16'), ('azimuth', 18, 'i32'), ('ring', 23, 'u8'), ('distance', 24, 'i16')]),
]


class Msg:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class PointField(Msg):
    def __init__(self, name='', offset=0, datatype=0, count=0): Msg.__init__(self, name=name, offset=offset, datatype=datatype, count=count)


class PointCloud2(Msg):
    def __init__(self, **kw):
        Msg.__init__(self, header=None, height=0, width=0, fields=[], is_bigendian=False, point_step=0, row_step=0, data=array.array('B'), is_dense=False); self.__dict__.update(kw)


for k, n in enumerate(('INT8', 'UINT8', 'INT16', 'UINT16', 'INT32', 'UINT32', 'FLOAT32', 'FLOAT64')):
    setattr(PointField, n, k + 1)


class Publisher:
    def __init__(self, node, topic): self.node, self.topic = node, topic
    def publish(self, m): self.node.published.append((self.topic, m))


class Any:
    def __getattr__(self, n): return Any()
    def __call__(self, *a, **k): return Any()


class Node:
    def __init__(self, *a, **k): self.published, self.subscriptions_made = [], []
    def create_subscription(self, t, topic, cb, qos, **k): self.subscriptions_made.append((topic, cb)); return Any()
    def create_publisher(self, t, topic, qos, **k): return Publisher(self, topic)
    def destroy_node(self): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Any()


def stub_modules():
    def mod(n, **kw):
        m = types.ModuleType(n); m.__dict__.update(kw); return m
    qos = type('QoSProfile', (), {'__init__': lambda s, *a, **k: s.__dict__.update(k)})
    en = type('Policy', (), {'__getattr__': lambda s, n: n})()
    mods = {'rclpy': mod('rclpy', init=lambda *a, **k: None, spin=lambda *a, **k: None, shutdown=lambda *a, **k: None, ok=lambda *a, **k: True),
            'rclpy.node': mod('rclpy.node', Node=Node), 'rclpy.qos': mod('rclpy.qos', QoSProfile=qos, QoSHistoryPolicy=en, QoSReliabilityPolicy=en, QoSDurabilityPolicy=en),
            'sensor_msgs': mod('sensor_msgs'), 'sensor_msgs.msg': mod('sensor_msgs.msg', PointCloud2=PointCloud2, PointField=PointField),
            'std_msgs': mod('std_msgs'), 'std_msgs.msg': mod('std_msgs.msg', Header=Msg)}
    mods['rclpy'].node = mods['rclpy.node']; mods['rclpy'].qos = mods['rclpy.qos']; mods['sensor_msgs'].msg = mods['sensor_msgs.msg']
    return mods


def load(repo, symbolic):
    """The real convert.py, with ROS stand-ins and, when symbolic, struct, array and bytes over symbolic bytes."""
    path = os.path.join(repo, 'point_type_converter/point_type_converter/convert.py')
    mods = stub_modules(); pre = {}
    if symbolic:
        am = types.ModuleType('array'); real = array.array
        am.array = lambda tc, init=(): sym_bytes(init) if tc == 'B' else real(tc, init)
        sm = SymStruct(); mods['array'] = am; mods['struct'] = sm
        pre = {'bytes': sym_bytes, 'bytearray': sym_bytes, 'memoryview': lambda x: x}
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        m = types.ModuleType('convert'); m.__dict__.update(pre); m.__file__ = path
        exec(compile(open(path).read(), path, 'exec'), m.__dict__)
    finally:
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m, path


def orders(fs):
    return [list(fs), list(fs)[::-1], list(fs)[1:] + list(fs)[:1]]


def case(ctx, npoints, history):
    """Layout, field order, byte order and number of points, as the first message or after one of another layout: each combination is explored."""
    step, extra = LAYOUTS[ctx.choose(len(LAYOUTS))]
    fs = orders(XYZ + extra)[ctx.choose(3)]
    big = bool(ctx.choose(2)); n = ctx.choose(npoints + 1)
    return dict(step=step, fields=fs, big=big, n=n, prior=bool(ctx.choose(2)) if history else False)


def message(c, data):
    fields = [PointField(name=a, offset=o, datatype=TYPE[t], count=1) for a, o, t in c['fields']]
    return PointCloud2(header=c.setdefault('header', Msg(frame_id='lidar', stamp=(3, 4))), height=1, width=c['n'], fields=fields, is_bigendian=c['big'], point_step=c['step'], row_step=c['step'] * c['n'], data=data, is_dense=True)


def field_bytes(c, data, i, name):
    a, o, t = next(f for f in c['fields'] if f[0] == name); n = struct.calcsize('=' + CH[TYPE[t]])
    bs = data[i * c['step'] + o:i * c['step'] + o + n]
    return (bs if not c['big'] else bs[::-1]), t     # least significant byte first


OUT = [('x', 0, 7), ('y', 4, 7), ('z', 8, 7), ('padding', 12, 7), ('intensity', 16, 7), ('ring', 20, 4)]


PRIOR = dict(step=32, fields=XYZ + [('ring', 16, 'u8'), ('intensity', 20, 'f32')], big=False, n=2)


def feed(node, c, msg, wrap):
    if c['prior']:
        node.callback(message(dict(PRIOR), wrap(struct.pack('<4fB3xf8x', 9, 8, 7, 0, 3, 5) + struct.pack('<4fB3xf8x', 6, 5, 4, 0, 2, 1))))
        del node.published[:]
    node.callback(msg)


def shape_problem(node, c):
    """What does not depend on the data bytes; None if all is as stated."""
    if len(node.published) != 1: return 'one-message-per-message'
    topic, m = node.published[0]
    if topic != '/points_converted' or [t for t, _ in node.subscriptions_made] != ['/points_raw']: return 'topics'
    if m.header is not c['header']: return 'header'
    if [(f.name, f.offset, f.datatype, f.count) for f in m.fields] != [(a, o, t, 1) for a, o, t in OUT]: return 'fields'
    if m.point_step != 32 or m.is_bigendian or m.height != 1 or m.row_step != 32 * m.width or len(m.data) != 32 * m.width: return 'layout'
    return None


def native_convert(repo, c, data):
    """The property decided on concrete bytes by a real run; returns what fails, or None."""
    m, _ = load(repo, False)
    c = dict(c); c.pop('header', None)
    try:
        node = m.PointTypeConverter(); feed(node, c, message(c, array.array('B', data)), lambda b: array.array('B', b))
    except Exception as e:
        return 'exception %s: %s' % (type(e).__name__, e)
    p = shape_problem(node, c)
    if p: return p
    out = bytes(bytearray(node.published[0][1].data)); exp = []
    for i in range(c['n']):
        v = {}
        for name in ('x', 'y', 'z', 'intensity', 'ring'):
            bs, t = field_bytes(c, list(data), i, name)
            v[name] = (struct.unpack('<' + CH[TYPE[t]], bytes(bs))[0], bytes(bs))
        if not (v['x'][0] == 0 and v['y'][0] == 0 and v['z'][0] == 0): exp.append(v)
    if len(out) != 32 * len(exp): return 'number-of-points'
    for k, v in enumerate(exp):
        for name, off in (('x', 0), ('y', 4), ('z', 8), ('intensity', 16)):
            g = struct.unpack('<f', out[32 * k + off:32 * k + off + 4])[0]; e = struct.unpack('<f', struct.pack('<f', v[name][0]))[0]
            if not (out[32 * k + off:32 * k + off + 4] == struct.pack('<f', v[name][0]) or (g != g and e != e)): return 'value-of-' + name
        if struct.unpack('<H', out[32 * k + 20:32 * k + 22])[0] != v['ring'][0]: return 'value-of-ring'
    return None


def le(bs):
    return z3.Concat(*bs[::-1]) if len(bs) > 1 else bs[0]


def as_f32(bs, t):
    bv = le(bs)
    if t == 'f32': return bv, None
    f = z3.fpUnsignedToFP(RM, bv, F) if t[0] == 'u' else z3.fpSignedToFP(RM, bv, F)
    return z3.fpToIEEEBV(f), None


def same_f32(a, b):
    nan = lambda v: z3.And(z3.Extract(30, 23, v) == 255, z3.Extract(22, 0, v) != 0)
    return z3.Or(a == b, z3.And(nan(a), nan(b)))


def h_convert(run, ctx, mod, c, data):
    node = mod.PointTypeConverter(); feed(node, c, message(c, SymBytes(data)), sym_bytes)
    p = shape_problem(node, c)
    if p: yield p, z3.BoolVal(False)
    m = node.published[0][1]; out = sym_bytes(m.data).b if not isinstance(m.data, SymBytes) else m.data.b
    n = c['n']; keep = []
    for i in range(n):
        zero = []
        for name in 'xyz':
            bs, t = field_bytes(c, data, i, name); zero.append(z3.Extract(30, 0, le(bs)) == 0)
        keep.append(z3.Not(z3.And(*zero)))
    run.reach['converted'] = run.reach.get('converted', 0) + 1
    if n and len(out) < 32 * n: run.reach['dropped'] = run.reach.get('dropped', 0) + 1
    for S in range(1 << n):
        ks = [i for i in range(n) if S >> i & 1]
        hyp = z3.And(*([keep[i] if S >> i & 1 else z3.Not(keep[i]) for i in range(n)] or [z3.BoolVal(True)]))
        if z3.is_false(z3.simplify(hyp)): continue
        if len(out) != 32 * len(ks):
            yield 'number-of-points', z3.Not(hyp); continue
        for k, i in enumerate(ks):
            for name, off in (('x', 0), ('y', 4), ('z', 8), ('intensity', 16)):
                e, _ = as_f32(*field_bytes(c, data, i, name))
                yield 'value-of-' + name, z3.Implies(hyp, same_f32(le(out[32 * k + off:32 * k + off + 4]), e))
            bs, t = field_bytes(c, data, i, 'ring'); bv = le(bs)
            yield 'value-of-ring', z3.Implies(hyp, le(out[32 * k + 20:32 * k + 22]) == (z3.ZeroExt(8, bv) if t == 'u8' else bv))


def bytes_fields(c):
    return [PointField(name=a, offset=o, datatype=TYPE[t], count=1) for a, o, t in sorted(c['fields'], key=lambda f: f[1])]


def native_roundtrip(repo, c, data):
    m, _ = load(repo, False)
    try:
        fs = bytes_fields(c); up = m.unpack_point_bytes(bytes(data), fs, c['step'], c['big'])
        if len(up) != c['n']: return 'number-of-points'
        for i in range(c['n']):
            if len(up[i]) != len(fs): return 'number-of-values'
            for k, f in enumerate(fs):
                bs, t = field_bytes(c, list(data), i, f.name); e = struct.unpack('<' + CH[f.datatype], bytes(bs))[0]
                if not (up[i][k] == e or (e != e and up[i][k] != up[i][k])): return 'value-of-' + f.name
        back = m.pack_point_data(up, fs, c['step'], c['big'])
    except Exception as e:
        return 'exception %s: %s' % (type(e).__name__, e)
    if len(back) != len(data): return 'packed-size'
    for i in range(c['n']):
        for f in fs:
            a, b = bytes(field_bytes(c, list(back), i, f.name)[0]), bytes(field_bytes(c, list(data), i, f.name)[0])
            if a != b:
                x = struct.unpack('<' + CH[f.datatype], b)[0]
                if x == x: return 'packed-' + f.name
    return None


def h_roundtrip(run, ctx, mod, c, data):
    fs = bytes_fields(c); up = mod.unpack_point_bytes(SymBytes(data), fs, c['step'], c['big'])
    if len(up) != c['n']: yield 'number-of-points', z3.BoolVal(False)
    for i in range(c['n']):
        if len(up[i]) != len(fs): yield 'number-of-values', z3.BoolVal(False)
        for k, f in enumerate(fs):
            bs, t = field_bytes(c, data, i, f.name); v = up[i][k]; bv = le(bs)
            if not isinstance(v, SymNum): raise Unsupported('value ' + type(v).__name__)
            if t == 'f32': yield 'value-of-' + f.name, (v.bits32 == bv if v.bits32 is not None else z3.BoolVal(False))
            elif t == 'f64': yield 'value-of-' + f.name, (v.bits64 == bv if v.bits64 is not None else z3.BoolVal(False))
            else:
                w = bv.size(); yield 'value-of-' + f.name, (v.i == (z3.ZeroExt(64 - w, bv) if t[0] == 'u' else z3.SignExt(64 - w, bv)) if v.isint else z3.BoolVal(False))
    run.reach['unpacked'] = run.reach.get('unpacked', 0) + 1
    back = mod.pack_point_data(up, fs, c['step'], c['big'])
    if len(back) != len(data): yield 'packed-size', z3.BoolVal(False)
    b = sym_bytes(back).b
    for i in range(c['n']):
        for f in fs:
            yield 'packed-' + f.name, z3.And(*[z3.simplify(x == y) for x, y in zip(field_bytes(c, b, i, f.name)[0], field_bytes(c, data, i, f.name)[0])])
    run.reach['packed'] = run.reach.get('packed', 0) + 1


ENTRIES = {'h_convert': (h_convert, native_convert), 'h_roundtrip': (h_roundtrip, native_roundtrip)}


def main():
    ap = argparse.ArgumentParser()
    for a in ('entry', 'out', 'repo', 'work', 'replay'): ap.add_argument('--' + a)
    ap.add_argument('--timeout', type=float, default=120); ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args()
    if a.replay:
        j = json.load(open(a.replay)); r = ENTRIES[j['entry']][1](a.repo or '/repo', j['case'], bytes.fromhex(j['data'])); print(r or 'held'); return 1 if r else 0
    t0 = time.time(); run = Run(t0 + a.timeout - 5); out = open(a.out, 'w'); fn, native = ENTRIES[a.entry]; s = run.s
    emit = lambda **k: (out.write(json.dumps(k) + '\n'), out.flush())
    mod, path = load(a.repo, True)
    seen = set(); npts = (4 if a.thorough else 3) if a.entry == 'h_roundtrip' else (3 if a.thorough else 2); validated_cases = set()

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != path: return None
        if event == 'call': run.fns.add(frame.f_code.co_name)
        run.lines += 1
        return tracer

    def concrete(ctx, model, data):
        return bytes(model.eval(b, model_completion=True).as_long() for b in data)

    def candidate(ctx, model, c, data, msg):
        d = concrete(ctx, model, data); r = native(a.repo, c, d)
        cc = {k: v for k, v in c.items() if k != 'header'}
        if r is None:
            s['unconfirmed'] += 1; emit(t='unconfirmed', msg=msg, inputs=json.dumps(cc) + ' ' + d.hex()[:200]); return
        if r.split()[0] in seen: return
        seen.add(r.split()[0]); s['violations'] += 1; run.deadline = min(run.deadline, time.time() + 20)
        f = os.path.join(a.work, 'replay_%d.json' % s['violations']); json.dump(dict(entry=a.entry, case=cc, data=d.hex()), open(f, 'w'))
        emit(t='violation', msg=r if not r.startswith('exception') else 'exception ' + r, kind='assert', loc=path, file=f, native='real run on %s data=%s: %s' % (json.dumps(cc), d.hex(), r))

    while run.todo:
        if time.time() > run.deadline: s['dropped'] += len(run.todo); break
        ctx = Ctx(run, run.todo.pop()); Ctx.cur = ctx; s['paths'] += 1; c = data = None
        try:
            c = case(ctx, npts, a.entry == 'h_convert'); data = [ctx.byte('d%d' % k) for k in range(c['n'] * c['step'])]; bad = False
            ctx.hint = z3.And(*[z3.Or(*[le(field_bytes(c, data, i, f)[0]) == struct.unpack('<I', struct.pack('<f', v))[0] for v in (0., -0., 1., -1., 2., 3e38, -3e38, 1e-40, float('inf'), float('nan'))]) for i in range(c['n']) for f in 'xyz'])
            sys.settrace(tracer)
            try:
                for msg, cond in fn(run, ctx, mod, c, data):
                    sys.settrace(None)
                    m = run.vassert(ctx, cond, msg)
                    if m is not None: bad = True; candidate(ctx, m, c, data, msg)
                    if z3.is_false(cond): break
                    sys.settrace(tracer)
            finally:
                sys.settrace(None)
            s['paths_done'] += 1
            key = (c['step'], c['big'], c['n'], c['fields'][0][0])
            if not bad and key not in validated_cases and len(validated_cases) < 40 and ctx.check() == z3.sat:
                validated_cases.add(key); d = concrete(ctx, ctx.solver.model(), data); r = native(a.repo, c, d)
                s['validated' if r is None else 'mismatched'] += 1
                emit(t='validation', ok=r is None, inputs='point_step=%d fields=%s big=%s data=%s' % (c['step'], ','.join(f[0] for f in c['fields']), c['big'], d.hex()[:160]))
        except Infeasible: s['infeasible'] += 1
        except Timeout: s['dropped'] += 1 + len(run.todo); break
        except Unsupported as e: s['unsupported'] += 1; emit(t='unsupported', msg=str(e))
        except Exception as e:
            if c is None or ctx.check() != z3.sat: s['unsupported'] += 1; emit(t='unsupported', msg=repr(e))
            else:
                before = s['unconfirmed']; candidate(ctx, ctx.solver.model(), c, data, 'exception ' + repr(e))
                if s['unconfirmed'] > before: s['unconfirmed'] = before; s['unsupported'] += 1; emit(t='unsupported', msg=''.join(traceback.format_exception_only(type(e), e)).strip())
    for f in sorted(run.fns):
        if not f.startswith('<'): emit(t='fn', name='point_type_converter.convert.' + f)
    s['instrs'] = run.lines
    emit(t='summary', **s, queries=run.queries, unknown=run.count['unknown'], sat=run.count['sat'], unsat=run.count['unsat'], cache=0, solver_s=round(run.solver_s, 3), wall_s=round(time.time() - t0, 2), reach=run.reach)


if __name__ == '__main__':
    sys.exit(main())
