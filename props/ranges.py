"""Declared ranges: what values an attribute takes, and body types that lie within them.

Read off the trait declarations (type, bounds, default, validators) of the classes of agents and logic nodes and off the
configuration of body types; no value is run through them."""
import ast
import os
from sa.check import const_of

A = 'crowddynamics.simulation.agents.'
L = 'crowddynamics.simulation.logic.'
PI = 3.14159265359
POS = ('Float', 0, None)
WHOLE = ('Int', 0, None)
RATIO = ('Float', 0, 1)
ANY = ('Float', None, None)
BODY = dict(radius=POS, r_t=POS, r_s=POS, r_ts=POS, mass=POS, inertia_rot=POS, target_velocity=POS, target_angular_velocity=POS,
            ratio_rt=RATIO, ratio_rs=RATIO, ratio_ts=RATIO, radius_mean=POS, radius_scale=POS, target_velocity_mean=POS,
            target_velocity_scale=POS, mass_mean=POS, mass_scale=POS)
TRANS = dict(tau_adj=POS, k_soc=POS, tau_0=POS, mu=POS, kappa=POS, damping=POS, std_rand_force=POS)
ROT = dict(orientation=('Float', -PI, PI), angular_velocity=ANY, target_orientation=ANY, torque=ANY, torque_prev=ANY, tau_rot=POS, std_rand_torque=POS)
STATE = dict(target=('Int', -1, None), familiar_exit=('Int', -1, None), index_leader=('Int', None, None))
PLANE = ('position', 'velocity', 'target_direction', 'force', 'force_prev')
SCALARS = {
    A + 'Circular': dict(BODY, **TRANS, **STATE),
    A + 'ThreeCircle': dict(BODY, **TRANS, **ROT, **STATE),
    A + 'Agents': dict(cell_size=POS),
    L + 'Integrator': dict(dt_min=POS, dt_max=POS),
    L + 'AgentAgentInteractions': dict(sight_soc=POS, max_agent_radius=POS, f_soc_max=POS, cell_size=POS),
    L + 'Navigation': dict(step=POS, radius=POS, strength=RATIO),
    L + 'LeaderFollower': dict(sight=POS),
    L + 'LeaderFollowerWithHerding': dict(sight_follower=POS, size_nearest_other=WHOLE),
    L + 'ExitDetection': dict(detection_range=('Float', 1, None)),
}
VECTORS = {A + 'Circular': PLANE, A + 'ThreeCircle': PLANE + ('position_ls', 'position_rs')}
LENGTHS = {'target_direction': (0.0, 1.0)}
UNKNOWN = object()


class Decl:
    """kind, keyword constants and validators of a trait"""
    def __init__(self, kind, kw, valid, where):
        self.kind, self.kw, self.valid, self.where = kind, kw, valid, where


def callee(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def value(proj, mod, cls, n):
    if isinstance(n, ast.Name):
        for k in (cls,):
            if n.id in k.attrs:
                n = k.attrs[n.id]
    try:
        return const_of(proj, n, mod, 0)
    except Exception:
        return UNKNOWN


def declared(proj, cls, name):
    a = proj.find_attr(cls, name)
    if not a or a[1] is None:
        return None
    k, n, _ = a
    where = '%s:%d' % (os.path.relpath(k.mod.path, proj.root) if hasattr(proj, 'root') else k.mod.path, n.lineno)
    if isinstance(n, ast.Name) and n.id in k.mod.names and k.mod.names[n.id][0] == 'const':
        n = k.mod.names[n.id][1]
    valid = []
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('valid', 'tag'):
        if n.func.attr == 'valid':
            valid += n.args
        n = n.func.value
    if not isinstance(n, ast.Call):
        return Decl(None, {}, [], where)
    kw = {x.arg: value(proj, k.mod, k, x.value) for x in n.keywords if x.arg}
    if any(x.arg is None for x in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args):
        return Decl(None, {}, [], where)
    kind = callee(n)
    if n.args and kind in ('Float', 'Int', 'Array'):
        kw.setdefault('default_value', value(proj, k.mod, k, n.args[0]))
    out = []
    for v in valid:
        if isinstance(v, ast.Name) and v.id in k.mod.names and k.mod.names[v.id][0] == 'const':
            v = k.mod.names[v.id][1]
        if isinstance(v, ast.Call) and callee(v) in ('shape_validator', 'length_validator') and not v.keywords:
            xs = []
            for a in v.args:
                if isinstance(a, ast.Starred):
                    a = value(proj, k.mod, k, a.value)
                    xs += list(a) if isinstance(a, tuple) else [UNKNOWN]
                else:
                    xs.append(value(proj, k.mod, k, a))
            out.append((callee(v), tuple(xs)))
        else:
            out.append((None, ()))
    return Decl(kind, kw, out, where)


def hooked(proj, cls, name):
    from props.trait_hooks import hooked as h
    t, other = h(proj, cls, 'validate')
    return other or name in t or any(not isinstance(k, str) and '_%s_validate' % name in k.methods for k in proj.mro(cls))


def bounds(ck):
    for q, table in SCALARS.items():
        try:
            cls = ck.proj.cls(q)
        except Exception:
            cls = None
        for name, (kind, lo, hi) in table.items():
            key = 'range %s.%s' % (q, name)
            rule = '%s of %s takes exactly the values of its range' % (name, q.rsplit('.', 1)[1])
            d = cls and declared(ck.proj, cls, name)
            if not d:
                ck.fact(rule, q, None, 'no such attribute', key=key)
                continue
            if d.kind not in ('Float', 'Int', 'CFloat', 'CInt', 'Bool', 'Unicode') or hooked(ck.proj, cls, name):
                ck.fact(rule, d.where, None, 'declared in another way', key=key)
                continue
            bad = []
            got = d.kw.get('min'), d.kw.get('max')
            for w, g, x in (('smallest', got[0], lo), ('largest', got[1], hi)):
                if g is UNKNOWN:
                    bad.append(None)
                elif (g is None) != (x is None) or g is not None and not (isinstance(g, float) and abs(g - x) < 1e-9):
                    bad.append('%s value is %s, not %s' % (w, g, x))
            if d.kind.lstrip('C') != kind:
                bad.append('it takes %s values, not %s' % (d.kind, kind))
            dv = d.kw.get('default_value', 0.0)
            if not isinstance(dv, float):
                bad.append(None)
            elif lo is not None and dv < lo - 1e-9 or hi is not None and dv > hi + 1e-9:
                bad.append('its default %g lies outside' % dv)
            real = [b for b in bad if b]
            ck.fact(rule, d.where, False if real else None if bad else True, '; '.join(real) or 'bound not constant', key=key)


def shapes(ck):
    for q, names in VECTORS.items():
        try:
            cls = ck.proj.cls(q)
        except Exception:
            cls = None
        for name in names:
            key = 'shape %s.%s' % (q, name)
            rule = '%s of %s takes exactly vectors of the plane%s' % (name, q.rsplit('.', 1)[1], ' of length zero or one' if name in LENGTHS else '')
            d = cls and declared(ck.proj, cls, name)
            if not d or d.kind != 'Array' or hooked(ck.proj, cls, name) or any(k is None for k, _ in d.valid):
                ck.fact(rule, d.where if d else q, None, 'declared in another way', key=key)
                continue
            sh = [x for k, x in d.valid if k == 'shape_validator']
            ln = [x for k, x in d.valid if k == 'length_validator']
            want = LENGTHS.get(name)
            bad = []
            if any(UNKNOWN in x for x in sh + ln):
                bad.append(None)
            elif sh != [(2.0,)] * max(len(sh), 1):
                bad.append('shapes %s are accepted' % (sh or 'of any kind',))
            elif want is None and ln:
                bad.append('only lengths %s are accepted' % (ln,))
            elif want is not None and (not ln or any(sorted(x) != sorted(want) for x in ln)):
                bad.append('lengths %s are accepted' % (ln or 'of any kind',))
            dv = d.kw.get('default_value')
            if isinstance(dv, tuple) and len(dv) != 2:
                bad.append('its default has %d components' % len(dv))
            real = [b for b in bad if b]
            ck.fact(rule, d.where, False if real else None if bad else True, '; '.join(real) or 'not constant', key=key)


def sections(path):
    """{section: {key: text}} of a configuration without nesting, None when it is written otherwise"""
    out, cur = {}, None
    with open(path) as f:
        for l in f:
            l = l.strip()
            if not l or l.startswith('#'):
                continue
            if l.startswith('[') and l.endswith(']') and not l.startswith('[['):
                cur = out.setdefault(l[1:-1].strip(), {})
            elif '=' in l and cur is not None:
                k, v = l.split('=', 1)
                v = v.split('#')[0].strip()
                if len(v) > 1 and v[0] == v[-1] and v[0] in '"\'':
                    v = v[1:-1]
                cur[k.strip()] = v
            else:
                return None
    return out


def conf(ck, name):
    p = os.path.join(ck.proj.root, 'crowddynamics', 'conf', name)
    return (sections(p), os.path.relpath(p, ck.proj.root)) if os.path.exists(p) else (None, name)


def body_types(ck):
    table, where = conf(ck, 'body_types.cfg')
    spec, swhere = conf(ck, 'body_types_spec.cfg')
    try:
        cls = ck.proj.cls(A + 'BodyType')
    except Exception:
        cls = None
    if not table or not spec or '__many__' not in spec or cls is None:
        ck.fact('body types are configured', where, None, 'configuration not found', key='body types')
        return
    keys = spec['__many__']
    # the specification allows what the attributes take
    for k, text in sorted(keys.items()):
        d = declared(ck.proj, cls, k)
        ok, why = None, 'written in another way'
        if d is None:
            ok, why = False, 'body types have no attribute %s' % k
        else:
            try:
                n = ast.parse(text, mode='eval').body
            except SyntaxError:
                n = None
            if isinstance(n, ast.Call) and callee(n) in ('float', 'integer') and d.kind == 'Float' and UNKNOWN not in d.kw.values():
                kw = {x.arg: value(ck.proj, cls.mod, cls, x.value) for x in n.keywords}
                ok = kw.get('min') == d.kw.get('min') and kw.get('max') == d.kw.get('max') and callee(n) == 'float'
                why = 'the configuration allows %s, the attribute %s' % (text, {a: d.kw.get(a) for a in ('min', 'max')})
        ck.fact('the specification of body types allows exactly what the attribute %s takes' % k, swhere, ok, why, key='body spec ' + k)
    reach = []
    for s, vals in sorted(table.items()):
        num, bad = {}, []
        for k in sorted(set(keys) | set(vals)):
            if k not in vals:
                bad.append('%s is missing' % k)
                continue
            if k not in keys:
                bad.append('%s is not specified' % k)
            try:
                num[k] = float(vals[k])
            except ValueError:
                bad.append('%s is no number' % k)
                continue
            d = declared(ck.proj, cls, k)
            if d is None:
                bad.append('there is no attribute %s' % k)
                continue
            lo, hi = d.kw.get('min'), d.kw.get('max')
            if isinstance(lo, float) and num[k] < lo or isinstance(hi, float) and num[k] > hi:
                bad.append('%s = %g lies outside its range' % (k, num[k]))
        ck.fact('body type %s gives every value, within its range' % s, where, not bad, '; '.join(bad), key='body values ' + s)
        g = num.get
        if all(x in num for x in ('ratio_rt', 'ratio_rs', 'ratio_ts')):
            bad = []
            if abs(g('ratio_rs') + g('ratio_ts') - 1) > 1e-3:
                bad.append('the shoulders reach %g of the radius' % (g('ratio_rs') + g('ratio_ts')))
            if g('ratio_ts') >= g('ratio_rt') + g('ratio_rs'):
                bad.append('the shoulders do not touch the torso')
            if not 0 < g('ratio_rs') <= g('ratio_rt') <= 1:
                bad.append('the torso is smaller than a shoulder or missing')
            ck.fact('the three circles of body type %s are one body that fills its radius' % s, where, not bad, '; '.join(bad), key='body circles ' + s)
        bad = ['%s can be negative or zero' % x for x in ('radius', 'mass', 'target_velocity')
               if x + '_mean' in num and x + '_scale' in num and not 0 < g(x + '_scale') < g(x + '_mean')]
        ck.fact('radius, mass and speed of body type %s are positive for every draw' % s, where, not bad, '; '.join(bad), key='body draws ' + s)
        if 'radius_mean' in num and 'radius_scale' in num:
            reach.append((g('radius_mean') + g('radius_scale'), s))
    # cells are large enough for the largest body
    for q, name, factor, what in ((L + 'AgentAgentInteractions', 'max_agent_radius', 1, 'the radius interactions reckon with'),
                                  (A + 'Agents', 'cell_size', 2, 'the cells of the overlap test')):
        try:
            d = declared(ck.proj, ck.proj.cls(q), name)
        except Exception:
            d = None
        dv = d.kw.get('default_value') if d else None
        r, s = max(reach) if reach else (None, None)
        ok = dv >= factor * r - 1e-12 if isinstance(dv, float) and r is not None else None
        ck.fact('%s covers every body type' % what, d.where if d else q, ok,
                'a body of type %s can have radius %g, %s is %s' % (s, r or 0, name, dv), key='body reach ' + name)


def choices(ck):
    """the body types simulations offer are configured"""
    table, where = conf(ck, 'body_types.cfg')
    if not table:
        return
    for mn, mod in sorted(ck.proj.modules.items()):
        if mn.startswith('specs.'):
            continue
        for nm, (k, c) in sorted(mod.names.items(), key=lambda x: x[0]):
            if k != 'class' or c.mod is not mod or 'body_type' not in c.attrs:
                continue
            n = c.attrs['body_type']
            if not (isinstance(n, ast.Call) and callee(n) == 'Enum'):
                continue
            kw = {x.arg: value(ck.proj, mod, c, x.value) for x in n.keywords if x.arg}
            vs = kw.get('values', value(ck.proj, mod, c, n.args[0]) if n.args else UNKNOWN)
            ok = None if not isinstance(vs, tuple) else all(v in table for v in vs) and ('default_value' not in kw or kw['default_value'] in vs)
            ck.fact('the body types %s offers are configured' % c.name, '%s:%d' % (os.path.relpath(mod.path, ck.proj.root), n.lineno), ok,
                    'offers %s of %s' % (vs, sorted(table)), key='body choices ' + c.qual)


RULES = {'C47': [bounds, shapes], 'C48': [body_types, choices]}
