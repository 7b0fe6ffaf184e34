"""Shipped simulations: the order in which their logic trees run the steps of one cycle.

The tree of every simulation class with a default logic is read off the summary of its default; a cycle runs it in
post-order.  What a step does to the agents - the columns it writes and the ones these values come from - is read off the
summary of the update of its node class.  From both: one reset, one integration, and every force and torque accumulated
between them; directions decided before they are steered towards, leaders followed before targets are navigated to."""
import ast
from sa import terms as t
from sa.check import Run, Unsupported, Budget
from props.caches import subterms, deco
from props.trait_hooks import strings

SIM = 'crowddynamics.simulation.multiagent.MultiAgentSimulation'
NODE = 'crowddynamics.simulation.base.LogicNodeBase'
FIELD = 'crowddynamics.simulation.field.Field'


def default_of(proj, cls, trait):
    for k in proj.mro(cls):
        if isinstance(k, str):
            continue
        for m in k.methods.values():
            for d in m.node.decorator_list:
                if deco(d) == 'default' and isinstance(d, ast.Call) and d.args and strings(k.mod, k, d.args[0]) == [trait]:
                    return m
            if m.node.name == '_%s_default' % trait:
                return m
    return None


def elements(x):
    """elements of a tuple / list term of fixed length, None otherwise"""
    if x.op in ('tuple', 'tup', 'list', 'vec'):
        return list(x.args)
    return None


def isapp(x, name):
    return x.op == 'app' and x.args[0] == name


def tree(x):
    """('Class', [children]) of a tree term, None when it cannot be told"""
    if isapp(x, 'new'):
        return x.args[1].args[0], []
    if isapp(x, 'LShift'):
        a = tree(x.args[1])
        if a is None:
            return None
        el = elements(x.args[2])
        kids = [tree(y) for y in (el if el is not None else [x.args[2]])]
        if None in kids:
            return None
        return a[0], a[1] + kids
    return None


def order(n):
    return [c for k in n[1] for c in order(k)] + [n[0]]


class Effects:
    def __init__(self, ck):
        self.ck, self.memo = ck, {}

    def cls(self, name):
        """the node class of that name"""
        ms = [v for m in self.ck.proj.modules.values() if not m.name.startswith('specs.')
              for nm, (k, v) in m.names.items() if k == 'class' and v.mod is m and v.name == name
              and any(not isinstance(b, str) and b.qual == NODE for b in self.ck.proj.mro(v))]
        return ms[0] if len(ms) == 1 else None

    def of(self, name):
        """{column written: columns read for it}, None when it cannot be told"""
        if name not in self.memo:
            self.memo[name] = self.find(name)
        return self.memo[name]

    def find(self, name):
        c = self.cls(name)
        if c is None:
            return None
        f = self.ck.proj.find_method(c, 'update')
        if f is None:
            return None
        try:
            r = Run(self.ck.proj, f, [('self', 'obj:' + c.qual)], {'attrs': {'array': 'recs:agents'}})
        except (Unsupported, Budget):
            return None
        out = {}
        for o, v in r.obs.items():
            if o.startswith('final col:agents/'):
                out[o[17:]] = self.cols(v)
        return out

    def cols(self, v):
        out = set()
        for u in subterms(v):
            s = u.args[0] if u.op == 'sym' else u.args[1] if u.op == 'el' else None
            if isinstance(s, str) and s.startswith('agents.'):
                out.add(s[7:].split('[')[0])
        return out


def simulations(ck):
    for mn, mod in sorted(ck.proj.modules.items()):
        if mn.startswith('specs.'):
            continue
        for nm, (k, c) in sorted(mod.names.items(), key=lambda x: x[0]):
            if k == 'class' and c.mod is mod and c.qual != SIM and any(not isinstance(b, str) and b.qual == SIM for b in ck.proj.mro(c)):
                yield c


def orders(ck):
    eff = Effects(ck)
    n = 0
    for c in simulations(ck):
        f = default_of(ck.proj, c, 'logic')
        if f is None:
            continue
        n += 1
        w, key = ck.where(f), 'steps of ' + c.qual
        try:
            r = Run(ck.proj, f, [('self', 'obj:' + c.qual)], {})
            tr = tree(r.obs['result']) if r.obs.get('result') is not None else None
            why = 'not a tree of logic nodes' if tr is None else ''
        except (Unsupported, Budget) as e:
            tr, why = None, str(e)
        if tr is None:
            ck.fact('the steps of a shipped simulation are a tree of logic nodes', w, None, why, key=key)
            continue
        seq = order(tr)
        es = [eff.of(s) for s in seq]
        if None in es:
            ck.fact('the steps of a shipped simulation are known', w, None, 'effects of %s not told' % seq[es.index(None)], key=key)
            continue
        judge(ck, w, c, seq, es)
        obstacles(ck, w, c, seq)
    ck.fact('shipped simulations were found', 'crowddynamics.examples', True if n else None, '%d trees' % n, key='shipped simulations')


def late(bad):
    return ''.join(': %s after %s' % b for b in bad)


def judge(ck, w, c, seq, es):
    n, show = len(seq), ', '.join(seq)
    force = [i for i in range(n) if 'force' in es[i] or 'torque' in es[i]]
    res = [i for i in force if es[i].get('force') == set()]        # written without reading anything
    acc = [i for i in force if i not in res]
    integ = [i for i in range(n) if 'force' in es[i].get('position', ()) or 'force' in es[i].get('velocity', ())]
    key = 'steps of %s: ' % c.qual
    one = len(res) == 1 and len(integ) == 1
    ck.fact('every cycle resets the forces once and integrates once', w, one, 'cycle of %s: %s' % (c.name, show), key=key + 'one reset, one integration')
    if one:
        at = lambda i: (i - res[0]) % n
        bad = [seq[i] for i in acc if at(i) > at(integ[0])]
        ck.fact('forces are accumulated after the reset and before the integration', w, not bad,
                'cycle of %s: %s%s' % (c.name, show, '; reset before integrated: ' + ', '.join(bad) if bad else ''), key=key + 'forces' + (': %s not integrated' % ', '.join(bad) if bad else ''))
    for col, users in (('target_direction', ('target_orientation', 'force', 'torque')), ('target_orientation', ('torque',))):
        wr = [i for i in range(n) if col in es[i]]
        rd = [i for i in range(n) if any(col in es[i].get(u, ()) for u in users)]
        bad = [(seq[i], seq[j]) for i in wr for j in rd if i > j]
        ck.fact('%s is decided before it is used' % col, w, not bad,
                'cycle of %s: %s%s' % (c.name, show, '; ' + ', '.join('%s after %s' % b for b in bad) if bad else ''), key=key + col + late(bad))
    # navigation comes after the choice of targets
    tw = [i for i in range(n) if 'target' in es[i]]
    nav = [i for i in range(n) if 'target_direction' in es[i] and 'target' not in es[i]]
    bad = [(seq[i], seq[j]) for i in tw for j in nav if i > j]
    ck.fact('targets are chosen before they are navigated to', w, not bad,
            'cycle of %s: %s%s' % (c.name, show, '; ' + ', '.join('%s after %s' % b for b in bad) if bad else ''), key=key + 'target' + late(bad))


def obstacles(ck, w, c, seq):
    """a simulation whose field has obstacles lets agents interact with them"""
    f = default_of(ck.proj, c, 'field')
    if f is None:
        return
    names = {k.name: k for k in fields(ck)}
    try:
        r = Run(ck.proj, f, [('self', 'obj:' + c.qual)], {})
    except (Unsupported, Budget):
        return
    v = r.obs.get('result')
    k = names.get(v.args[1].args[0]) if v is not None and isapp(v, 'new') else None
    if k is None:
        return
    has = default_of(ck.proj, k, 'obstacles') is not None and default_of(ck.proj, k, 'obstacles').cls.qual != FIELD
    for b in ck.proj.mro(k):
        if isinstance(b, str) or b.qual == FIELD:
            break
        for m in b.methods.values():
            has = has or any(isinstance(x, ast.Attribute) and x.attr == 'obstacles' and isinstance(x.ctx, ast.Store) for x in ast.walk(m.node))
    if has:
        ck.fact('agents interact with the obstacles of their field', w, 'AgentObstacleInteractions' in seq, 'field %s of %s has obstacles' % (k.name, c.name),
                key='steps of %s: obstacles' % c.qual)


def fields(ck):
    for mn, mod in sorted(ck.proj.modules.items()):
        if not mn.startswith('specs.'):
            for nm, (k, c) in mod.names.items():
                if k == 'class' and c.mod is mod and any(not isinstance(b, str) and b.qual == FIELD for b in ck.proj.mro(c)):
                    yield c


RULES = {'C44': [orders]}
