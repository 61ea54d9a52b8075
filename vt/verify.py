"""Verification context: runs functions of the crate symbolically and discharges the obligations of a property."""
import re
import time
import traceback
import exe
import concrete
import models
import prove as pv
import term as tm
from term import *
from exe import Exec, State, Unsupported, Diverge
from prove import Facts, prove, prove_eq, Fail, forall


class Refuted(Exception):
    pass


class V:
    def __init__(self, prog, budget=240):
        self.prog = prog
        self.obs = []
        self.t0 = time.time()
        self.end = self.t0 + budget
        self.used = {}
        self.used_models = {}
        self.assumptions = []
        self.extra = {}
        self.contracts = {}
        self.only = None
        self.pick = ''

    # ---------------------------------------------------------------- running
    def ex(self, contracts=None, extra=None, fault=False):
        x = Exec(self.prog, models.Models(dict(self.extra, **(extra or {}))), dict(self.contracts, **(contracts or {})))
        x.deadline = min(self.end, time.time() + 200)
        x.fault = fault
        self.x = x
        return x

    def obj(self, x, st, ty, name='self'):
        """an arbitrary value of a crate type in its own cell -> (value, pointer)"""
        v = sym(name, exe.sort_of(ty))
        return v, self.cell(x, st, v, ty)

    def cell(self, x, st, v, ty):
        p = x.heap(st, v)
        x.opaque_types[p.args[0]] = ty
        return p

    def call(self, x, st, fname, args, tys=None, dty='?', pc=()):
        """run a function on a state; -> value"""
        try:
            r = x.call(st, tuple(pc), None, fname, list(args), tys or ['?'] * len(args), dty)
        finally:
            for k, n in x.used.items():
                self.used[k] = self.used.get(k, 0) + n
            for k, n in x.used_models.items():
                self.used_models[k] = self.used_models.get(k, 0) + n
            x.used, x.used_models = {}, {}
        return r

    # ---------------------------------------------------------------- obligations
    def ob(self, name, goal):
        """goal(): None when proved; a Fail / text otherwise"""
        if self.only and not re.search(self.only, name) or not re.search(self.pick, name):
            return
        t = time.time()
        z0 = pv.STATS['z3_calls']
        u0 = pv.STATS['z3_unknown']
        pv.DEADLINE[0] = min(self.end, time.time() + 200)
        st, why = 'undecided', ''
        if time.time() > self.end:
            self.obs.append({'name': name, 'status': 'undecided', 'backend': '-', 's': 0.0, 'why': 'time budget of the run'})
            return
        try:
            r = goal()
            if r is None:
                st = 'discharged'
            else:
                why = str(r)[:3000]
                if getattr(r, 'refuted', False):
                    st = 'refuted'
                elif isinstance(r, Fail) and pv.STATS['z3_unknown'] == u0:
                    st = 'failed'       # the proof fails, and not for want of time
        except Unsupported as e:
            why = 'outside the verifier: ' + str(e)[:300]
        except Diverge as e:
            st, why = 'failed', 'panics or does not end, on every path: ' + str(e)[:200]
        except pv.Out as e:
            why = str(e)
        except RecursionError:
            why = 'recursion limit'
        except Exception as e:
            why = 'internal: ' + repr(e)[:200] + ' ' + traceback.format_exc(limit=-3)[-700:]
        if st in ('failed', 'refuted') and self.prog.aliases:
            st, why = 'undecided', 'with ' + ', '.join(f'{a} taken for {b}' for a, b in self.prog.aliases[:8]) + ': ' + why
        self.obs.append({'name': name, 'status': st, 'backend': 'term normaliser' + (' + z3' if pv.STATS['z3_calls'] > z0 else ''), 's': round(time.time() - t, 3), 'why': why})

    def eq(self, name, fn):
        """fn() -> (code term, spec term, facts)"""
        def goal():
            r = fn()
            a, b = r[0], r[1]
            F = r[2] if len(r) > 2 and isinstance(r[2], Facts) else Facts(r[2] if len(r) > 2 else ())
            f = prove_eq(a, b, F)
            if f is not None:
                f = self.tryrefute(f, a, b, F)
            return f
        self.ob(name, goal)

    free = ()

    def tryrefute(self, f, a, b, F):
        """look for a concrete counter-model of a failed obligation"""
        if sum(o['status'] == 'refuted' for o in self.obs) >= 12:
            return f
        t = time.time()
        try:
            w = concrete.refute(a, b, F.list(), F.q, seconds=2.0, free=self.free)
        except Exception as e:
            w = None
        if w is not None:
            f.refuted = True
            f.why = 'counter-model ' + w[:900] + ' :: ' + f.why
        return f

    def panics(self, x, wf=(), what='no panic'):
        """all panic obligations recorded by x hold under wf"""
        q = wf.q if isinstance(wf, Facts) else ()
        if isinstance(wf, Facts):
            wf = wf.list()
        for o in x.obs:
            fs = list(wf)
            for f in o.facts:
                if f[0] == 'ge0':
                    fs.append(le(I(0), f[1]))
                elif f[0] == 'le':
                    fs.append(le(f[1], f[2]))
                elif f[0] == 'range':
                    fs += [le(I(0), f[1]), lt(f[1], f[2])]
                elif f[0] == 'fact':
                    fs.append(f[1])
            r = prove(not_(o.bad), Facts(fs, q=q))
            if r is not None:
                return self.tryrefute(Fail(o.bad, None, Facts(fs, q=q), f'{what}: {o.kind} in {o.where}'), not_(o.bad), None, Facts(fs, q=q))
        return None

    def part(self, regex, run):
        """the obligations of another property whose names match"""
        o, self.pick = self.pick, regex
        try:
            run(self)
        finally:
            self.pick = o

    def report(self):
        return {'obligations': self.obs, 'functions': sorted(k for k in self.used if True), 'trusted': sorted(self.used_models),
                'assumptions': self.assumptions, 'solver_s': round(pv.STATS['z3_s'], 3), 'note': ''}


FAM = {'string': 'string_types::String', 'rc': 'rc_types::Rc', 'arc': 'arc_types::Arc'}
KINDS = ['Node', 'Way', 'Relation']
GETTERS = ['id', 'version', 'deleted', 'changeset_id', 'timestamp', 'uid', 'user']
RET = {'id': 'i64', 'version': 'Option<u32>', 'deleted': 'bool', 'changeset_id': 'Option<u32>', 'timestamp': '&Option<TimestampFormat>', 'uid': 'Option<u32>', 'user': 'Option<&str>',
       'object_type': 'OSMObjectType', 'lat_lon': 'Option<(Lat, Lon)>', 'nodes': '&[i64]', 'num_nodes': 'usize', 'num_tags': 'usize', 'tagged': 'bool', 'untagged': 'bool', 'has_tag': 'bool', 'tag': 'Option<&str>'}


def ty(fam, kind):
    return FAM[fam] + kind


def getter(v, x, st, t, g, p):
    """value of a getter, as a mathematical value"""
    trait = {'lat_lon': 'Node', 'nodes': 'Way', 'num_nodes': 'Way', 'members': 'Relation', 'node': 'Way'}.get(g, 'OSMObjBase')
    s2 = st.copy()
    r = v.call(x, s2, f'<{t} as {trait}>::{g}', [x.read(st, ('loc', p.args[0], p.args[1]))], ['&' + t], RET.get(g, '?'))
    if g in ('tags', 'members'):
        r = models.rest(r)
    return r


def all_getters(kind):
    return GETTERS + ['tags'] + {'Node': ['lat_lon'], 'Way': ['nodes'], 'Relation': ['members'], 'OSMObj': []}[kind]
