"""Methods hooked to traits: the hook has to name the traits whose definition, change or proposal it serves.

HOOKS lists (properties, class, kind, traits, method with an agreement obligation).  A trait without its hook keeps
stale dependents (observe), its static default (default) or unchecked values (validate)."""
import ast

A = 'crowddynamics.simulation.agents.'
L = 'crowddynamics.simulation.logic.'
B = 'crowddynamics.simulation.base.'
F = 'crowddynamics.simulation.field.'
X = 'crowddynamics.examples.fields.'

HOOKS = [
    ('C06', B + 'CrowdDynamicsObject', 'default', 'name', '_default_name'),
    ('C06', B + 'SimulationBase', 'default', 'timestamp', '_default_timestamp'),
    ('C10', L + 'SaveSimulationData', 'default', 'save_directory', '_default_save_directory'),
    ('C32', F + 'Field', 'validate', 'domain', '_valid_domain'),
    ('C32', F + 'Field', 'validate', 'obstacles', '_valid_obstacles'),
    ('C32', F + 'Field', 'observe', 'domain obstacles targets', '_observe_geometry'),
    ('C45', X + 'OutdoorField', 'default', 'domain', '_default_domain'),
    ('C45', X + 'OutdoorField', 'default', 'spawns', '_default_spawns'),
    ('C45', X + 'OutdoorField', 'observe', 'width height', '_observe_field'),
    ('C45', X + 'HallwayField', 'default', 'obstacles', '_default_obstacles'),
    ('C45', X + 'HallwayField', 'default', 'targets', '_default_targets'),
    ('C45', X + 'HallwayField', 'default', 'spawns', '_default_spawns'),
    ('C45', X + 'HallwayField', 'default', 'domain', '_default_domain'),
    ('C45', X + 'HallwayField', 'observe', 'width height ratio', '_observe_field'),
    ('C22', A + 'ThreeCircle', 'default', 'position_ls', '_default_position_ls'),
    ('C22', A + 'ThreeCircle', 'default', 'position_rs', '_default_position_rs'),
    ('C22', A + 'ThreeCircle', 'observe', 'position orientation r_ts', '_observe_shoulders'),
    ('C26', A + 'BodyType', 'default', 'body_types', '_default_body_types'),
    ('C26', A + 'BodyType', 'observe', 'body_type', '_observe_body_type'),
    ('C26', A + 'BodyType', 'observe', 'radius_mean radius_scale', '_observe_radius_truncnorm'),
    ('C26', A + 'BodyType', 'observe', 'mass_mean mass_scale', '_observe_mass_truncnorm'),
    ('C26', A + 'BodyType', 'observe', 'target_velocity_mean target_velocity_scale', '_observe_target_velocity_truncnorm'),
    ('C26', A + 'BodyType', 'observe', 'radius ratio_rt ratio_rs ratio_ts', '_observe_radius'),
    ('C26', A + 'BodyType', 'observe', 'mass radius', '_observe_inertia_rot'),
    ('C28', A + 'AgentGroup', 'observe', 'size agent_type attributes', '_observe_members'),
    ('C24', L + 'AgentAgentInteractions', 'default', 'cell_size', '_default_cell_size'),
]
for _m, _cs in (('simulations', 'Outdoor Hallway RoomWithOneExit FourExitsRandomPlacing'),
                ('collective_motion', 'Outdoor Rounding AvoidObstacle ClosedRoom FourExitsRandomPlacing FourExitsFixedPlacing')):
    for _c in _cs.split():
        for _p, _t in (('C44', 'logic'), ('C46', 'field'), ('C46', 'agents')):
            HOOKS.append((_p, 'crowddynamics.examples.%s.%s' % (_m, _c), 'default', _t, '_default_' + _t))
MAGIC = {'observe': ('_%s_changed', '_%s_fired'), 'default': ('_%s_default',), 'validate': ('_%s_validate',)}


def strings(mod, cls, n):
    """the literal strings of a decorator argument, None when they cannot be told"""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return [n.value]
    if isinstance(n, (ast.List, ast.Tuple)):
        out = [strings(mod, cls, x) for x in n.elts]
        return None if None in out else sum(out, [])
    if isinstance(n, ast.Starred):
        return strings(mod, cls, n.value)
    if isinstance(n, ast.Name):
        for b in (cls.node.body, mod.tree.body):
            v = [s.value for s in b if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets)]
            if len(v) == 1:
                return strings(mod, cls, v[0])
    return None


def hooked(proj, cls, kind):
    """({trait: [method names]}, whether other hooks may exist)"""
    out, other, seen = {}, False, set()
    for k in proj.mro(cls):
        if isinstance(k, str):
            continue
        for name, m in k.methods.items():
            if name in seen:
                continue        # overridden
            seen.add(name)
            for d in m.node.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if nm != kind:
                    if nm is None:
                        other = True
                    continue
                args = [strings(k.mod, k, a) for a in d.args] if isinstance(d, ast.Call) else [None]
                if None in args or not args:
                    other = True
                    continue
                for x in sum(args, []):
                    out.setdefault(x, []).append(name)
            if any(isinstance(n, ast.Attribute) and n.attr in ('observe', 'on_trait_change', '_register_validator', 'add_traits') for n in ast.walk(m.node)):
                other = True
    return out, other


def touched(proj, cls, name, seen):
    """(attributes of self a method may assign, its own methods it may run), None when that cannot be told"""
    if name in seen:
        return set()
    seen.add(name)
    m = proj.find_method(cls, name)
    if m is None:
        return None
    me = m.node.args.args[0].arg if m.node.args.args else None
    calls = {id(n.func) for n in ast.walk(m.node) if isinstance(n, ast.Call)}
    inner = {id(n.value) for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
    out = set()
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            if isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            if proj.find_method(cls, n.attr):
                r = touched(proj, cls, n.attr, seen)
                if r is None:
                    return None
                out |= r
            elif id(n) in calls:
                return None     # set, set_trait, notify_change and the like
        elif isinstance(n, ast.Name) and n.id == me and id(n) not in inner:
            return None         # self handed on: setattr(self, ...), f(self)
        elif isinstance(n, ast.Name) and n.id in ('super', 'vars', 'locals', 'exec', 'eval'):
            return None
    return out


def unserved(proj, cls, table, method, trait):
    """whether a change of the trait surely leaves alone all that the method would have assigned"""
    goal = touched(proj, cls, method, set())
    if not goal:
        return False
    seen, todo, traits = set(), [trait], set()
    while todo:
        tr = todo.pop()
        if tr in traits:
            continue
        traits.add(tr)
        for m in table.get(tr, ()):
            r = touched(proj, cls, m, seen)
            if r is None or m == method:
                return False
            todo.extend(r)
    return method not in seen and not traits & goal


def checker(pid):
    def rule(ck):
        for p, c, kind, traits, method in HOOKS:
            if p != pid:
                continue
            try:
                cls = ck.proj.cls(c)
            except Exception:
                cls = None
            if cls is None:
                ck.fact('%s hooks' % kind, c, None, 'construct not found', key='hook %s %s' % (c, kind))
                continue
            table, other = hooked(ck.proj, cls, kind)
            for tr in traits.split():
                f = ck.proj.find_method(cls, method)
                where = ck.where(f) if f else c
                magic = any(not isinstance(k, str) and (m % tr) in k.methods for k in ck.proj.mro(cls) for m in MAGIC[kind])
                ok = method in table.get(tr, ()) or (None if other or magic or table.get(tr) and not (kind == 'observe' and unserved(ck.proj, cls, table, method, tr)) else False)
                ck.fact('%s: %s of %s is served by its own definition' % (kind, tr, c.rsplit('.', 1)[1]), where, ok,
                        'no method is hooked to %s of trait %r' % (kind, tr), key='hook %s %s %s' % (c, kind, tr))
    rule.__name__ = 'trait hooks'
    return rule


RULES = {p: [checker(p)] for p in sorted({h[0] for h in HOOKS})}
