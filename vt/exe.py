"""Symbolic execution of the MIR of the real functions.

A function body is executed once over all its paths (states are merged at join points); loops are
summarised by inductive closed forms / recursive functions and the index at which they leave; crate
functions are inlined or replaced by their contract; std and dependency functions are replaced by the
assumed contracts of models.py.  Panics and arithmetic overflow become obligations."""
import json
import re
import os
from term import *
import term as tm
import mir


class Unsupported(Exception):
    pass


INTS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}


def strip_ref(t):
    t = t.strip()
    while t.startswith('&'):
        t = t[1:].lstrip()
        t = re.sub(r"^'\w+ ", '', t)
        if t.startswith('mut '):
            t = t[4:]
    return t


def base(t):
    """last path segment without generics and references"""
    t = strip_ref(t)
    while True:
        m = re.match(r'^(?:std::boxed::)?Box<(.*)>$', t, re.S)
        if m:
            t = strip_ref(m.group(1))
            continue
        break
    if t.startswith(('[', '(', '{')):
        return t
    if t.startswith('<') or t.startswith('impl ') or t.startswith('dyn '):
        return t
    k = t.find('<')
    if k > 0:
        t = t[:k]
    t = t.rstrip(':')
    return t.split('::')[-1]


def sort_of(t):
    b = base(t)
    if b in INTS or b == 'char':
        return 'I'
    if b == 'bool':
        return 'B'
    return 'U'


def generics(t):
    t = strip_ref(t)
    k = t.find('<')
    if k < 0 or not t.endswith('>'):
        return []
    return mir.split_top(t[k + 1:-1])


ENUMS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'], 'Cow': ['Borrowed', 'Owned'],
    'Ordering': ['Less', 'Equal', 'Greater'],
    'XmlEvent': ['StartDocument', 'EndDocument', 'ProcessingInstruction', 'StartElement', 'EndElement', 'CData', 'Comment', 'Characters', 'Whitespace', 'Doctype'],
    'Event': ['Start', 'End', 'Empty', 'Text', 'CData', 'Comment', 'Decl', 'PI', 'DocType', 'GeneralRef', 'Eof'],
    'XmlVersion': ['Implicit1_0', 'Explicit1_0', 'Explicit1_1'],
    'SecondsFormat': ['Secs', 'Millis', 'Micros', 'Nanos', 'AutoSi'],
    'Value': ['Null', 'Bool', 'Number', 'String', 'Array', 'Object'],
}
ORDERING = {0: -1, 1: 0, 2: 1}
STRUCTS = {'OwnedAttribute': ['name', 'value'], 'OwnedName': ['local_name', 'namespace', 'prefix'], 'Attribute': ['key', 'value'],
           'Range': ['start', 'end'], 'RangeFrom': ['start'], 'RangeTo': ['end'], 'UninitializedFieldError': ['0']}
# field types of variants / structs (type text), used to expand opaque values
FTYPES = {('Option', 1): ['T0'], ('Result', 0): ['T0'], ('Result', 1): ['T1']}
# byte/char codes


def load_types(repo):
    """struct and enum layouts from the crate's source"""
    for root, _, fs in os.walk(os.path.join(repo, 'src')):
        if os.sep + 'bin' in root:
            continue
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            src = open(os.path.join(root, f)).read()
            src = re.sub(r'//[^\n]*', '', src)
            for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*(<[^{(;]*>)?\s*(where[^{;]*)?([({;])', src):
                kind, name, _, _, o = m.groups()
                if o == ';':
                    STRUCTS.setdefault(name, [])
                    continue
                e = _close(src, m.end() - 1)
                body = src[m.end():e]
                items = _items(body)
                if kind == 'struct':
                    if name in ('PBFReader', 'FileReader') and name in STRUCTS:
                        # several readers share the name; keyed by file
                        pass
                    key = name
                    names, tys = [], []
                    for i, it in enumerate(items):
                        it = _noattr(it)
                        if o == '{':
                            n, t = it.split(':', 1)
                            names.append(n.strip().split()[-1])
                            tys.append(t.strip())
                        else:
                            names.append(str(i))
                            tys.append(re.sub(r'^pub(\([^)]*\))?\s+', '', it))
                    mod = _modname(os.path.join(root, f), repo)
                    STRUCTS[mod + name] = names
                    FTYPES[(mod + name, 0)] = tys
                    if key in STRUCTS and STRUCTS[key] != names and key not in ('OwnedAttribute',):
                        AMBIG.add(key)
                    STRUCTS.setdefault(key, names)
                    FTYPES.setdefault((key, 0), tys)
                    at_ = re.findall(r'#\[derive\(([^)]*)\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?$', src[:m.start()])
                    if at_ and 'Builder' in [x.strip() for x in at_[-1].split(',')]:
                        STRUCTS[name + 'Builder'] = STRUCTS[mod + name + 'Builder'] = names
                        FTYPES[(name + 'Builder', 0)] = FTYPES[(mod + name + 'Builder', 0)] = [f'Option<{t}>' for t in tys]
                        ENUMS[name + 'BuilderError'] = ['UninitializedField', 'ValidationError']
                else:
                    vs = []
                    for i, it in enumerate(items):
                        it = _noattr(it)
                        mm = re.match(r'(\w+)\s*(.*)$', it, re.S)
                        vs.append(mm.group(1))
                        rest = mm.group(2).strip()
                        if rest.startswith('('):
                            FTYPES[(name, i)] = [_noattr(x) for x in _items(rest[1:-1])]
                        else:
                            FTYPES[(name, i)] = []
                    ENUMS[name] = vs


AMBIG = set()


def _modname(p, repo):
    r = os.path.relpath(p, os.path.join(repo, 'src'))[:-3]
    parts = [x for x in r.split(os.sep) if x not in ('mod', 'lib')]
    return '::'.join(parts) + '::' if parts else ''


def _noattr(s):
    s = s.strip()
    while s.startswith('#'):
        k = s.index('[')
        e = _close(s, k)
        s = s[e + 1:].strip()
    return s


def _close(s, i):
    d = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def _items(s):
    out = []
    d = 0
    cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c in '([{<':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
        if c == ',' and d == 0:
            if cur.strip():
                out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def split_call(s):
    """callee text -> (selfty, trait, method, method generics) or (None, None, path, generics)"""
    s = s.strip()
    if s.startswith('<'):
        e = mir.match_close(s, 0)
        inner = s[1:e]
        rest = s[e + 1:]
        k = mir.find_top(inner, ' as ')
        selfty, trait = (inner[:k], inner[k + 4:]) if k >= 0 else (inner, None)
        m = re.match(r'^::(\w+)', rest)
        meth = m.group(1)
        g = rest[m.end():]
        gs = mir.split_top(g[3:-1]) if g.startswith('::<') else []
        return selfty, trait, meth, gs
    # path with generics
    segs_ = []
    i = 0
    cur = ''
    while i < len(s):
        c = s[i]
        if c in '<{([':
            e = mir.match_close(s, i)
            cur += s[i:e + 1]
            i = e + 1
            continue
        if s.startswith('::', i):
            if s[i + 2:i + 3] == '<':
                e = mir.match_close(s, i + 2)
                cur += s[i:e + 1]
                i = e + 1
                continue
            segs_.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    segs_.append(cur)
    last = segs_[-1]
    gs = []
    k = last.find('::<')
    if k >= 0:
        gs = mir.split_top(last[k + 3:-1])
        last = last[:k]
    selfty = '::'.join(segs_[:-1]) if len(segs_) > 1 else None
    if selfty:
        m = re.match(r'^(.*)::<(.*)>$', selfty, re.S)
        if m and mir.match_close(selfty, len(m.group(1)) + 2) == len(selfty) - 1:
            selfty = m.group(1) + '<' + m.group(2) + '>'
        m = re.match(r'^.*<impl (.*)>$', selfty, re.S)
        if m and not m.group(1).startswith('at ') and mir.match_close(selfty, m.start(1) - 6) == len(selfty) - 1:
            selfty = m.group(1)
    return selfty, None, last, gs


def ty_norm(t):
    t = t.strip()
    t = re.sub(r"'\w+,? ?", '', t)
    t = t.replace('&mut ', '&')
    t = re.sub(r'\s+', ' ', t)
    t = re.sub(r'<>', '', t)
    # drop path prefixes of std
    t = re.sub(r'\b(?:std|core|alloc)(?:::\w+)*::(?=\w)', '', t)
    return t


def is_tyvar(t, extra=()):
    return bool(re.match(r'^[A-Z][A-Z0-9]?$', t)) or t in ('Self', '__S', '__D') or t.startswith('impl ') or t.startswith('<Self as') or bool(re.match(r'^<(?:[A-Z]\w?|impl [\w:]+) as ', t))


def unify(p, a, env):
    """callee type p (with variables) against actual type a; fills env; False on clash"""
    p, a = p.strip(), a.strip()
    if a in ('?', '') or a.startswith('<') or p.startswith('<'):     # an associated type
        return True
    if is_tyvar(p):
        if p in env and env[p] != a:
            return True
        env[p] = a
        return True
    if is_tyvar(a):
        return True
    if p.startswith('&') and a.startswith('&'):
        return unify(re.sub(r"^&('\w+ )?(mut )?", '', p), re.sub(r"^&('\w+ )?(mut )?", '', a), env)
    if p.startswith('&') != a.startswith('&'):
        return False
    if p.startswith('(') and a.startswith('('):
        ps, as_ = mir.split_top(p[1:-1]), mir.split_top(a[1:-1])
        return len(ps) == len(as_) and all(unify(x, y, env) for x, y in zip(ps, as_))
    if p.startswith('[') or a.startswith('['):
        if p.startswith('[') and a.startswith('['):
            ps, as_ = p[1:-1].split(';')[0], a[1:-1].split(';')[0]
            return unify(ps, as_, env)
        return False
    if p.startswith('{') or a.startswith('{'):
        return ty_norm(p) == ty_norm(a)
    pn, an = ty_norm(p), ty_norm(a)
    if pn == an:
        return True
    pb, ab = (pn[:pn.find('<')] if '<' in pn else pn), (an[:an.find('<')] if '<' in an else an)
    pb, ab = pb.rstrip(':'), ab.rstrip(':')
    if not (pb == ab or pb.endswith('::' + ab) or ab.endswith('::' + pb)):
        return False
    pg, ag = generics(p), generics(a)
    pg = [x for x in pg if not x.startswith("'")]
    ag = [x for x in ag if not x.startswith("'")]
    if len(pg) == len(ag):
        return all(unify(x, y, env) for x, y in zip(pg, ag))
    return True


def tsubst(t, env):
    if not env:
        return t
    keys = sorted(env, key=len, reverse=True)
    for k in keys:
        if k.startswith('impl ') or k.startswith('<'):
            t = t.replace(k, env[k])
        else:
            t = re.sub(r'(?<![\w:])' + re.escape(k) + r'(?![\w:]|::)', lambda m: env[k], t) if k != 'Self' else re.sub(r'\bSelf\b', lambda m: env[k], t)
    return t


_isopt = {}


def is_opt(ty):
    r = _isopt.get(ty)
    if r is None:
        r = _isopt[ty] = not ty.startswith('&') and base(ty) in ('Option', 'Result')
    return r


def nv(v, ty):
    """record the number of variants of an opaque enum value"""
    if v.op in ('sym', 'fld', 'at', 'app') and v not in tm.NV:
        b = base(ty)
        if b in ('Option', 'Result'):
            tm.NV[v] = 2
        elif b in ENUMS:
            tm.NV[v] = len(ENUMS[b])
    elif v.op == 'ite':
        nv(v.args[1], ty)
        nv(v.args[2], ty)


class Program:
    def __init__(self, text, repo):
        self.repo = repo
        load_types(repo)
        self.fns = mir.parse(text) + mir.parse(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.mir')).read())
        self.by = {}
        self.src = {}
        for l in self.fns:
            l.meth = None
            l.implfor = None
            l.trait = None
            n = l.name
            if '{closure' in n.split('::')[-1]:
                m = re.search(r'\{closure@[^}]*\}', l.args[0][1]) if l.args else None
                if m:
                    self.by.setdefault(m.group(0), []).append(l)
                continue
            last = n.split('::')[-1]
            l.meth = last
            m = re.search(r'<impl at ([^:>]*):(\d+):(\d+): (\d+):(\d+)>::\w+$', n)
            if m:
                l.trait, l.implfor = self.impl_header(m)
                if l.implfor is None and l.kind == 'fn':
                    self.derived(l)
            elif re.match(r'^[A-Z]\w*::\w+$', n) and l.kind == 'fn':
                l.trait = n.split('::')[0]        # trait default method
                l.implfor = 'Self'
            self.by.setdefault(last, []).append(l)
            if n != last:
                self.by.setdefault(n, []).append(l)
        self.renamed = {}        # name of a function in the source -> the name this verifier knows it by
        self.aliases = []
        self.rename(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json'))

    def signatures(self):
        """[(module, type, name, signature, fn)] of the functions that are not part of a trait"""
        out = []
        for l in self.fns:
            if l.kind != 'fn' or l.meth is None or l.trait is not None or l.implfor is not None and '$' in l.implfor:
                continue
            mod = l.name.rsplit('::', 1)[0] if '::' in l.name else ''
            mod = re.sub(r'(::)?<impl at .*', '', mod)
            out.append((mod, base(l.implfor) if l.implfor else '', l.meth, ', '.join(t for _, t in l.args) + ' -> ' + l.ret, l))
        return out

    def rename(self, table):
        """a function of names.json that is gone, with a new one of the same signature beside it, goes on under its old name
        (then a failed obligation only counts as undecided: the function may not be meant to be the same)"""
        if not os.path.exists(table):
            return
        old = [tuple(t) for t in json.load(open(table))]
        cur = self.signatures()
        near = lambda a, b: a == b or not a or not b       # rustc leaves the module out when the name is unique
        sig = lambda s: re.sub(r'\b\w+::', '', s)
        for c in cur:
            ms = {t[0] for t in old if t[1:3] == c[1:3] and sig(t[3]) == sig(c[3])}
            if not c[0] and len(ms) == 1 and (m := ms.pop()) and not any(o is not c and o[1:3] == c[1:3] and o[0] == m for o in cur):
                c[4].raw = c[4].name
                c[4].name = m + '::' + c[4].name
                self.by.setdefault(c[4].name, []).append(c[4])
        groups = {}
        for t in old:
            if not any(c[2] == t[2] and c[1] == t[1] and near(c[0], t[0]) for c in cur):
                groups.setdefault((t[0], t[1], sig(t[3])), ([], []))[0].append(t[2])
        for c in cur:
            if not any(c[2] == t[2] and c[1] == t[1] and near(c[0], t[0]) for t in old):
                gs = [g for k, g in groups.items() if near(k[0], c[0]) and k[1:] == (c[1], sig(c[3]))]
                if len(gs) == 1 and c[4] not in gs[0][1]:
                    gs[0][1].append(c[4])
        for (mod, ty, _), (gone, new) in groups.items():
            if len(gone) != len(new):
                continue
            for o, l in zip(gone, new):
                if self.renamed.get(l.meth, o) != o:
                    continue
                self.renamed[l.meth] = o
                self.aliases.append((l.name, o))
                if not hasattr(l, 'raw'):
                    l.raw = l.name
                l.name = (mod + '::' if mod and '::' not in l.name else '') + l.name[:len(l.name) - len(l.meth)] + o
                l.meth = o
                self.by.setdefault(o, []).append(l)
                if l.name != o:
                    self.by.setdefault(l.name, []).append(l)

    def derived(self, l):
        """self type (and trait) of a method generated by a derive"""
        a0 = strip_ref(l.args[0][1]) if l.args else None
        if l.trait == 'Builder':
            tr = {'default': 'Default', 'clone': 'Clone', 'fmt': 'Debug', 'from': 'From'}.get(l.meth)
            if l.meth in ('default', 'create_empty'):
                a0 = l.ret
            elif l.meth == 'from':
                tr = f'From<{l.args[0][1]}>'
                a0 = l.ret
            l.trait = tr
        elif l.meth in ('default', 'from') or a0 is None:
            a0 = l.ret
        l.implfor = a0

    def lines(self, f):
        if f not in self.src:
            self.src[f] = open(os.path.join(self.repo, f)).read().split('\n')
        return self.src[f]

    def impl_header(self, m):
        f, a, b, c, d = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
        ls = self.lines(f)
        if a == c:
            t = ls[a - 1][b - 1:d - 1]
        else:
            t = '\n'.join([ls[a - 1][b - 1:]] + ls[a:c - 1] + [ls[c - 1][:d - 1]])
        t = t.strip()
        if not t.startswith('impl'):
            return t, None      # derive
        t = t[4:].strip()
        if t.startswith('<'):
            e = mir.match_close(t, 0)
            t = t[e + 1:].strip()
        t = re.split(r'\bwhere\b', t)[0].strip()
        k = mir.find_top(t, ' for ')
        if k >= 0:
            return t[:k].strip(), t[k + 5:].strip()
        return None, t


class State:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return State(dict(self.m))


class Frame:
    __slots__ = ('fn', 'fid', 'env', 'name')


class Ob:
    """a panic/overflow obligation: under `facts`, `bad` must be false"""
    __slots__ = ('where', 'kind', 'bad', 'facts')

    def __init__(self, where, kind, bad, facts):
        self.where, self.kind, self.bad, self.facts = where, kind, bad, facts


class Exec:
    def __init__(self, prog, models, contracts=None):
        self.prog = prog
        self.models = models
        self.contracts = contracts or {}
        self.fid = 0
        self.hid = 0
        self.obs = []
        self.stack = []
        self.used = {}       # crate functions executed -> count
        self.used_models = {}
        self.used_contracts = {}
        self.fault = False   # writers may fail
        self.addr = {}
        self.steps = 0
        self.deadline = None
        self.ctx = []        # facts of enclosing loops
        self.opaque_types = {}
        self.prune = False   # simplify the state on every branch
        self.invs = {}       # function name -> loop invariant (see loop_inv)
        self.invobs = []     # obligations of loop invariants: (name, term, term or None, facts)
        self.facts = []      # facts about the fresh symbols of invariants and of contracts of calls
        self.discovering = False
        self.guess = None    # proposes and proves closed forms of loops under the hypotheses of a contract
        self.rws = []        # equations used from left to right with those facts
        self.exits = []      # what holds after the loops under invariants have ended (for postconditions only)

    # ------------------------------------------------------------- state access
    def heap(self, st, v):
        self.hid += 1
        c = ('h', self.hid)
        st.m[c] = v
        return ptr(c)

    def read(self, st, loc):
        if loc[0] == 'val':
            return loc[1]
        if loc[0] == 'ite':
            return ite(loc[1], self.read(st, loc[2]), self.read(st, loc[3]))
        _, cell, path = loc[:3]
        v = st.m.get(cell)
        if v is None:
            raise Unsupported(f'read of uninitialised {cell}')
        for s in path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if s[0] == 'f':
            return fld(v, s[1], s[2], s[3])
        return at(v, s[1], s[2])

    def write(self, st, loc, new):
        if loc[0] == 'ite':
            old1, old2 = self.read(st, loc[2]), self.read(st, loc[3])
            self.write(st, loc[2], ite(loc[1], new, old1))
            # re-read in case of overlap
            self.write(st, loc[3], ite(loc[1], self.read(st, loc[3]), new))
            return
        if loc[0] != 'loc':
            raise Unsupported('write through a value')
        _, cell, path = loc[:3]
        if not path:
            st.m[cell] = new
            return
        v = st.m.get(cell)
        if v is None:
            # partial initialisation of a struct
            v = sym(f'uninit!{cell}')
        st.m[cell] = self.upd(v, list(path), new, loc[3] if len(loc) > 3 else '?')

    def upd(self, v, path, new, ty):
        if not path:
            return new
        s = path[0]
        if s[0] == 'f':
            if v.op == 'mk' and v.args[1] == s[1] and 2 + s[2] < len(v.args):
                a = list(v.args)
                a[2 + s[2]] = self.upd(a[2 + s[2]], path[1:], new, s[4])
                return tm._mk('mk', tuple(a), 'U')
            if v.op == 'ite':
                # branches that cannot have the variant keep their value
                def go(x):
                    if x.op == 'ite':
                        return ite(x.args[0], go(x.args[1]), go(x.args[2]))
                    if x.op == 'mk' and x.args[1] != s[1]:
                        return x
                    return self.upd(x, path, new, ty)
                return go(v)
            e = self.expand(v, ty, s[1])
            if e is None:
                raise Unsupported(f'update of a field of an opaque {ty}')
            return self.upd(e, path, new, ty)
        i = s[1]
        return cat(sslice(v, I(0), i), unit(self.upd(at(v, i, s[2]), path[1:], new, s[3])), sslice(v, add(i, 1), len_(v)))

    def expand(self, v, ty, variant):
        """opaque structure -> mk with projected fields"""
        b = base(ty)
        if b.startswith('('):
            ts = mir.split_top(b[1:-1])
            return mk('tup', 0, *[fld(v, 0, i, sort_of(t)) for i, t in enumerate(ts)])
        if b in ENUMS:
            fts = FTYPES.get((b, variant))
            if fts is None:
                return None
            g = generics(ty)
            fts = [g[int(t[1:])] if re.match(r'^T\d$', t) and int(t[1:]) < len(g) else t for t in fts]
            return mk(b, variant, *[fld(v, variant, i, sort_of(t)) for i, t in enumerate(fts)])
        k = self.skey(ty)
        if k in STRUCTS and variant == 0:
            fts = FTYPES.get((k, 0))
            n = len(STRUCTS[k])
            return mk(b, 0, *[fld(v, 0, i, sort_of(fts[i]) if fts else 'U') for i in range(n)])
        if b in STRUCTS and variant == 0:
            return mk(b, 0, *[fld(v, 0, i) for i in range(len(STRUCTS[b]))])
        return None

    def skey(self, ty):
        t = strip_ref(ty)
        k = t.find('<')
        if k > 0:
            t = t[:k]
        t = t.rstrip(':')
        if t in STRUCTS:
            return t
        for s in STRUCTS:
            if s.endswith('::' + t):
                return s
        return t.split('::')[-1]

    # ------------------------------------------------------------- places
    def place(self, st, fr, p):
        """-> location; location types are tracked as text in loc[3]"""
        l, projs = p
        ty = tsubst(fr.fn.locals.get(l, '?'), fr.env)
        loc = ('loc', (fr.fid, l), (), ty)
        variant = 0
        for pr in projs:
            k = pr[0]
            if k == 'deref':
                if loc[0] == 'loc' and ((loc[1] in st.m) or loc[2]):
                    v = self.read(st, loc)
                    loc = self.deref(v, loc, ty)
                elif loc[0] == 'ite' or loc[0] == 'val':
                    loc = self.deref(self.read(st, loc), loc, ty)
                ty = re.sub(r"^(&('\w+ )?(mut )?|\*(const|mut) )", '', ty.strip())
                m = re.match(r'^(?:std::boxed::)?Box<(.*)>$', ty)
                variant = 0
            elif k == 'v':
                variant = self.variant(ty, pr[1])
            elif k == 'f':
                fty = tsubst(pr[2], fr.env)
                if base(ty) in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'Unique', 'NonNull'):
                    # wrappers of raw storage are transparent
                    ty = fty
                    variant = 0
                    continue
                loc = self.sub(loc, ('f', variant, pr[1], sort_of(fty), fty))
                ty = fty
                variant = 0
            elif k == 'ix':
                i = st.m[(fr.fid, pr[1])]
                ety = self.elty(ty)
                loc = self.sub(loc, ('ix', i, sort_of(ety), ety))
                ty = ety
            elif k == 'cix':
                ety = self.elty(ty)
                if pr[3]:
                    n = len_(self.read(st, loc))
                    i = sub(n, I(pr[1]))
                else:
                    i = I(pr[1])
                loc = self.sub(loc, ('ix', i, sort_of(ety), ety))
                ty = ety
            else:
                raise Unsupported('projection ' + k)
        return loc, ty

    def elty(self, ty):
        t = strip_ref(ty)
        if t.startswith('['):
            return t[1:-1].rsplit(';', 1)[0].strip() if ';' in t else t[1:-1]
        g = generics(t)
        return g[0] if g else '?'

    def sub(self, loc, s):
        if loc[0] == 'val':
            return ('val', self.step(loc[1], s))
        if loc[0] == 'ite':
            return ('ite', loc[1], self.sub(loc[2], s), self.sub(loc[3], s))
        return ('loc', loc[1], loc[2] + (s,), loc[3])

    def deref(self, v, loc, ty='?'):
        if v.op == 'ptr':
            return ('loc', v.args[0], v.args[1], self.celltype(v.args[0]))
        if v.op == 'ite' and self.hasptr(v):
            return ('ite', v.args[0], self.deref(v.args[1], ('val', v.args[1])), self.deref(v.args[2], ('val', v.args[2])))
        return loc

    def hasptr(self, v):
        if v.op == 'ptr':
            return True
        return v.op == 'ite' and (self.hasptr(v.args[1]) or self.hasptr(v.args[2]))

    def celltype(self, cell):
        return self.opaque_types.get(cell, '?')

    def variant(self, ty, name):
        b = base(ty)
        m = re.match(r'variant#(\d+)', name)
        if m:
            return int(m.group(1))
        if b in ENUMS and name in ENUMS[b]:
            return ENUMS[b].index(name)
        c = {vs.index(name) for vs in ENUMS.values() if name in vs}
        if len(c) == 1:
            return c.pop()
        raise Unsupported(f'variant {name} of {ty}')

    def locptr(self, loc):
        if loc[0] == 'loc':
            if loc[1] not in self.opaque_types and len(loc) > 3:
                self.opaque_types[loc[1]] = loc[3]
            return ptr(loc[1], loc[2])
        if loc[0] == 'ite':
            return ite(loc[1], self.locptr(loc[2]), self.locptr(loc[3]))
        return loc[1]

    # ------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            loc, ty = self.place(st, fr, o[1])
            v = self.read(st, loc)
            if 'Option<' in ty or 'Result<' in ty:
                nv(v, ty) if is_opt(ty) else None
            return v, ty
        return self.const(st, fr, o[1])

    def const(self, st, fr, s):
        s = s.strip()
        m = re.match(r'^(-?\d+)_([iu]\w+)$', s)
        if m:
            return I(int(m.group(1))), m.group(2)
        if s == 'true':
            return TRUE, 'bool'
        if s == 'false':
            return FALSE, 'bool'
        if s == '()':
            return UNIT, '()'
        if s.startswith('"'):
            return lit(mir.unescape(s[1:-1])), '&str'
        if s.startswith('b"'):
            return lit(mir.unescape(s[2:-1], True)), '&[u8]'
        if s.startswith("'"):
            return I(ord(mir.unescape(s[1:-1]))), 'char'
        m = re.match(r'^(-?[\d.eE+-]+|-?inf|NaN)f(64|32)$', s)
        if m:
            return app('f' + m.group(2), m.group(1)), 'f' + m.group(2)
        m = re.match(r'^(?:core::num::<impl )?(\w+)>?::(MAX|MIN)$', s)
        if m and m.group(1) in TYR:
            lo, hi = TYR[m.group(1)]
            return I(hi if m.group(2) == 'MAX' else lo), m.group(1)
        if s.startswith('ZeroSized: '):
            s = s[11:]
        s2 = tsubst(s, fr.env)
        if s.startswith('{closure@'):
            return mk(s, 0), s
        if re.match(r'^(std::iter::)?Empty::<', s):
            return mk('Iter:U', 0, EMPTY, I(0)), 'std::iter::Empty'
        # unit-like enum constants
        c = self.prog.by.get(s)
        if c is None:
            b = s.split('::<')[0] if not s.startswith('<') else s
            c = self.prog.by.get(b)
        if c is None and not s.startswith('<'):
            tail = s.split('::')[-1]
            if re.match(r'^[A-Z0-9_]+$', tail) or 'promoted[' in s or '{constant#' in s:
                c = [x for x in self.prog.by.get(tail, []) if x.kind == 'const' and (x.name == s or x.name.endswith('::' + s) or s.endswith('::' + x.name))]
                if len(c) > 1:
                    c = self.promo(c, fr)
        if not c and 'promoted[' in s:
            own = fr.fn.raw + '::' + s.split('::')[-1]
            c = [x for x in self.prog.fns if x.kind == 'const' and x.name == own] or None
        if c is None and s.startswith('<') and 'promoted[' in s:
            rest = s[mir.match_close(s, 0) + 1:]
            c = [x for l in self.prog.fns if (x := l).kind == 'const' and x.name.endswith(rest)]
        if c:
            c = [x for x in c if x.kind == 'const']
            if len(c) > 1:
                c = self.promo(c, fr)
            if len(c) >= 1:
                v = self.call_fn(State(), c[0], [], [], {})
                return v, c[0].ret
        # enum unit variant
        m = re.match(r'^(.*)::(\w+)$', s2)
        if m and '(' not in m.group(2):
            b = base(m.group(1))
            if b in ENUMS and m.group(2) in ENUMS[b]:
                return mk(b, ENUMS[b].index(m.group(2))), m.group(1)
        if re.search(r'^<.* as .*>::[A-Z_]+$', s):
            return app('const:' + s2), '?'
        if 'promoted[' in s or '{constant#' in s or re.match(r'^(?:\w+::)*[A-Z][A-Z0-9_]*$', s):
            raise Unsupported('constant ' + s[:120])
        # function item
        return mk('fn:' + s2, 0), 'fn'

    def promo(self, c, fr):
        """several promoteds of the same name: take the one following the current function"""
        idx = self.prog.fns.index
        li = next((i for i, l in enumerate(self.prog.fns) if l._fn is fr.fn), None)
        if li is None:
            return c
        aft = [x for x in c if self.prog.fns.index(x) > li]
        return aft[:1] if aft else c

    # ------------------------------------------------------------- obligations
    def panic(self, fr, pc, cond, kind):
        """panics when cond holds (under pc)"""
        bad = and_(*pc, cond)
        if bad is FALSE:
            return
        self.obs.append(Ob(fr.name if fr else '?', kind, bad, tuple(self.ctx)))

    # ------------------------------------------------------------- calls
    def call_fn(self, st, lazy, args, argtys, env, pc=()):
        fn = lazy.fn()
        key = lazy.name
        if len(self.stack) > 40 or self.stack.count(key) > 3:
            raise Unsupported('recursion ' + key)
        if lazy.kind == 'fn':
            self.used[key] = self.used.get(key, 0) + 1
        fr = Frame()
        fr.fn = fn
        self.fid += 1
        fr.fid = self.fid
        fr.env = env
        fr.name = key
        for (i, _), v in zip(fn.args, args):
            st.m[(fr.fid, i)] = v
        self.stack.append(key)
        outs = self.region(st, fr, tuple(pc), 0, None)
        self.stack.pop()
        rets = outs.get('return', [])
        if not rets:
            raise Diverge(key)
        npc, nst = self.merge(rets)
        st.m.clear()
        st.m.update(nst.m)
        r = st.m.get((fr.fid, 0), UNIT)
        for c in [c for c in st.m if c[0] == fr.fid]:
            del st.m[c]
        return r

    def merge(self, items):
        """[(pc, state)] -> (pc, state)"""
        if len(items) == 1:
            return items[0]
        # sort to merge neighbours sharing the longest prefix last
        items = list(items)
        while len(items) > 1:
            # merge the pair with the longest common prefix
            best = None
            for i in range(len(items)):
                for j in range(i):
                    n = len(set(items[i][0]) & set(items[j][0]))
                    t = max(len(items[i][0]), len(items[j][0]))
                    if best is None or (n, -t) > best[0]:
                        best = ((n, -t), j, i)
            _, j, i = best
            a, b = items[j], items[i]
            m = self.merge2(a, b)
            items = [x for k, x in enumerate(items) if k not in (i, j)] + [m]
        return items[0]

    def merge2(self, a, b):
        (pa, sa), (pb, sb) = a, b
        sb_ = set(pb)
        sa_ = set(pa)
        common = [x for x in pa if x in sb_]
        ra = and_(*[x for x in pa if x not in sb_])
        rb = and_(*[x for x in pb if x not in sa_])
        d = or_(ra, rb)
        npc = tuple(common) + ((d,) if d is not TRUE else ())
        # the condition that picks a: prefer the simpler
        c, x, y = ra, sa, sb
        if ra is FALSE:
            return (tuple(pb), sb)
        if rb is FALSE:
            return (tuple(pa), sa)
        if ra is TRUE:
            c, x, y = not_(rb), sa, sb
        elif d is TRUE or True:
            # under npc, a iff ra; if both have a complementary literal use it alone
            la = ra.args if ra.op == 'and' else (ra,)
            lb = rb.args if rb.op == 'and' else (rb,)
            for l in la:
                if not_(l) in lb:
                    c = l
                    break
                if any(self.excl(l, m) for m in lb):
                    c = l
                    break
        m = {}
        for k in x.m.keys() | y.m.keys():
            u, v = x.m.get(k), y.m.get(k)
            if u is None or v is None:
                # initialised on one side only: keep it (meaningful only there)
                m[k] = u if v is None else v
                continue
            if u is v:
                m[k] = u
            else:
                m[k] = ite(c, u, v)
        return (npc, State(m))

    def excl(self, l, m):
        return l.op == 'eq' and m.op == 'eq' and l.args[0] is m.args[0] and l.args[1] is not m.args[1] and l.args[1].op in ('int', 'lit') and m.args[1].op in ('int', 'lit')

    # ------------------------------------------------------------- CFG
    def analyse(self, fn):
        if fn._an is not None:
            return fn._an
        succ = {}
        for b, bl in fn.blocks.items():
            t = bl.term
            if t[0] == 'goto':
                s = [t[1]]
            elif t[0] == 'switch':
                s = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == 'assert':
                s = [t[5]]
            elif t[0] == 'drop':
                s = [t[2]]
            elif t[0] == 'call':
                s = [t[4]] if t[4] is not None else []
            else:
                s = []
            succ[b] = [x for x in s if x in fn.blocks]
        # drop edges into unreachable blocks
        dead = {b for b, bl in fn.blocks.items() if bl.term[0] == 'unreachable' and not bl.stmts}
        succ = {b: [x for x in s if x not in dead] for b, s in succ.items()}
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = list(reversed(order))
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for x in succ[b]:
                pred[x].append(b)
        # dominators
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in rpo:
            for x in succ[b]:
                if x in dom[b]:
                    body = loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(pred[y])
                elif pos[x] <= pos[b]:
                    raise Unsupported('irreducible control flow in ' + fn.name)
        # blocks that can only end in a panic belong to the loops they are reached from
        ret = set()
        st = [b for b in rpo if fn.blocks[b].term[0] == 'return']
        while st:
            y = st.pop()
            if y not in ret:
                ret.add(y)
                st.extend(pred[y])
        if ret:
            for h, body in loops.items():
                st = [x for b in body for x in succ[b]]
                while st:
                    y = st.pop()
                    if y not in body and y not in ret:
                        body.add(y)
                        st.extend(succ[y])
        # liveness of locals
        addr = set()
        use = {b: set() for b in rpo}
        dfn = {b: set() for b in rpo}

        def up(b, p, write=False):
            l, pr = p
            for x in pr:
                if x[0] == 'ix' and x[1] not in dfn[b]:
                    use[b].add(x[1])
            if write and not pr:
                dfn[b].add(l)
            elif l not in dfn[b]:
                use[b].add(l)

        def uo(b, o):
            if o[0] != 'const':
                up(b, o[1])
        for b in rpo:
            bl = fn.blocks[b]
            for s in bl.stmts:
                if s[0] == 'asg':
                    r = s[2]
                    if r[0] in ('ref', 'refmut', 'len', 'discr'):
                        up(b, r[1])
                        if r[0] == 'refmut':
                            if not any(x[0] == 'deref' for x in r[1][1]):
                                addr.add(r[1][0])
                    elif r[0] == 'rawref':
                        up(b, r[2])
                        addr.add(r[2][0])
                    elif r[0] == 'use' or r[0] == 'un':
                        uo(b, r[-1])
                    elif r[0] == 'cast':
                        uo(b, r[1])
                    elif r[0] == 'bin':
                        uo(b, r[2]); uo(b, r[3])
                    elif r[0] in ('tuple', 'array'):
                        for o in r[1]:
                            uo(b, o)
                    elif r[0] == 'repeat':
                        uo(b, r[1])
                    elif r[0] == 'closure':
                        for _, o in r[2]:
                            uo(b, o)
                    elif r[0] == 'agg':
                        for o in r[3]:
                            uo(b, o)
                    up(b, s[1], True)
                elif s[0] == 'setdiscr':
                    up(b, s[1])
            t = bl.term
            if t[0] == 'switch':
                uo(b, t[1])
            elif t[0] == 'assert':
                uo(b, t[1])
                for o in t[4]:
                    uo(b, o)
            elif t[0] == 'call':
                if not re.match(r'^[\w:<{]', t[2]) or t[2].startswith(('copy ', 'move ')):
                    uo(b, mir.parse_operand(t[2]))
                for o in t[3]:
                    uo(b, o)
                up(b, t[1], True)
            elif t[0] == 'return':
                use[b].add(0)
        livein = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                lo = set()
                for x in succ[b]:
                    lo |= livein[x]
                n = use[b] | (lo - dfn[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        fn._an = (succ, pos, loops, livein, addr, dead)
        return fn._an

    def region(self, st, fr, pc, start, body, header=None):
        """execute from block `start`; body: set of blocks (None: whole function).
        -> {'return': [...], 'back': [...], ('exit', b): [...]}"""
        fn = fr.fn
        succ, pos, loops, livein, addr, dead = self.analyse(fn)
        outs = {}
        pend = {start: [(pc, st)]}
        first_ = True
        while pend:
            b = min(pend, key=lambda x: pos[x])
            items = pend.pop(b)
            if self.deadline is not None:
                import time
                if time.time() > self.deadline:
                    raise Unsupported('time budget')
            items = [(p, s) for p, s in items]
            p, s = self.merge(items)

            def goto(t, p2, s2):
                if t in dead:
                    return
                if and_(*p2) is FALSE:
                    return
                if body is not None:
                    if t == header:
                        outs.setdefault('back', []).append((p2, s2))
                        return
                    if t not in body:
                        outs.setdefault(('exit', t), []).append((p2, s2))
                        return
                pend.setdefault(t, []).append((p2, s2))
            if b in loops and not (first_ and b == header):
                for t, p2, s2 in self.loop(s, fr, p, b, loops[b]):
                    goto(t, p2, s2)
                first_ = False
                continue
            first_ = False
            self.block(s, fr, p, fn.blocks[b], goto, outs)
        return outs

    def block(self, st, fr, pc, bl, goto, outs):
        st = st.copy()
        for s in bl.stmts:
            if s[0] == 'asg':
                v, _ = self.rvalue(st, fr, pc, s[2], s[1])
                if v is None:
                    continue
                self.assign(st, fr, s[1], v)
            elif s[0] == 'setdiscr':
                raise Unsupported('set_discriminant')
            else:
                raise Unsupported('statement ' + s[1][:80])
        t = bl.term
        k = t[0]
        if k == 'goto':
            goto(t[1], pc, st)
        elif k == 'return':
            outs.setdefault('return', []).append((pc, st))
        elif k in ('unreachable', 'resume', 'abort', 'terminate'):
            return
        elif k == 'drop':
            goto(t[2], pc, st)
        elif k == 'assert':
            c, _ = self.operand(st, fr, t[1])
            if not t[2]:
                c = not_(c)
            self.panic(fr, pc, not_(c), t[3])
            goto(t[5], pc, st)
        elif k == 'switch':
            v, ty = self.operand(st, fr, t[1])
            rest = []
            for val, tgt in t[2]:
                if v.sort == 'B':
                    c = not_(v) if val == 0 else v
                else:
                    if v.sort != 'I':
                        raise Unsupported('switch on an opaque value of type ' + ty)
                    c = eq(v, I(self.signed(val, ty)))
                p2 = self.addpc(pc, and_(*rest, c) if False else c)
                if p2 is not None:
                    goto(tgt, p2, self.pruned(st, c))
                rest.append(not_(c))
            if t[3] is not None:
                # a two-way test on the last variant is the complement
                p2 = pc
                for c in rest:
                    p2 = self.addpc(p2, c)
                    if p2 is None:
                        break
                if p2 is not None:
                    goto(t[3], p2, self.pruned(st, *rest))
        elif k == 'call':
            self.docall(st, fr, pc, t, goto)
        else:
            raise Unsupported('terminator ' + k)

    def pruned(self, st, *cs):
        s = st.copy()
        if self.prune and any(c is not TRUE for c in cs):
            self.assume_state(s, cs)
        return s

    def signed(self, val, ty):
        b = base(ty)
        if b in TYR and TYR[b][0] < 0 and val > TYR[b][1]:
            return val - (TYR[b][1] - TYR[b][0] + 1)
        return val

    def addpc(self, pc, c):
        if c is TRUE:
            return pc
        if c is FALSE:
            return None
        if c in pc:
            return pc
        n = not_(c)
        if n in pc:
            return None
        lits = list(c.args) if c.op == 'and' else [c]
        for l in lits:
            nl = not_(l)
            for q in pc:
                if q is nl or self.excl(q, l):
                    return None
                if q.op == 'not' and q.args[0] is l:
                    return None
        # drop literals already decided
        if c.op == 'not' and c.args[0].op == 'eq':
            e = c.args[0]
            for q in pc:
                if q.op == 'eq' and q.args[0] is e.args[0] and q.args[1].op in ('int', 'lit') and e.args[1].op in ('int', 'lit') and q.args[1] is not e.args[1]:
                    return pc
        if c.op == 'eq' and c.args[0].op == 'discr':
            # the last possible variant
            pass
        a = and_(*pc, c)
        if a is FALSE:
            return None
        out = list(pc)
        for l in lits:
            if l not in out:
                out.append(l)
        return tuple(out)

    def assign(self, st, fr, p, v):
        if not p[1]:
            st.m[(fr.fid, p[0])] = v
            return
        loc, ty = self.place(st, fr, p)
        self.write(st, loc, v)

    def rvalue(self, st, fr, pc, r, dst):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            loc, ty = self.place(st, fr, r[1])
            if loc[0] == 'loc' and not self.isinit(st, loc):
                return None, ty
            return self.read(st, loc), '&' + ty
        if k == 'refmut' or (k == 'rawref'):
            p = r[1] if k == 'refmut' else r[2]
            loc, ty = self.place(st, fr, p)
            if loc[0] == 'val':
                return loc[1], '&' + ty
            return self.locptr(loc), '&mut ' + ty
        if k == 'discr':
            loc, ty = self.place(st, fr, r[1])
            v = self.read(st, loc)
            if base(ty) == 'Ordering':
                d = discr(v)
                if v.op == 'mk':
                    return I(ORDERING[v.args[1]]), 'i8'
                return add(d, -1), 'i8'
            nv(v, ty)
            return discr(v), 'isize'
        if k == 'len':
            loc, ty = self.place(st, fr, r[1])
            return len_(self.read(st, loc)), 'usize'
        if k == 'un':
            v, ty = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if v.sort == 'B':
                    return not_(v), ty
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                if v.sort == 'I':
                    return neg(v), ty
                return app('fneg', v), ty
            if r[1] == 'PtrMetadata':
                if v.op == 'ptr':
                    v = self.read(st, self.deref(v, None))
                return len_(v), 'usize'
        if k == 'bin':
            a, ta = self.operand(st, fr, r[2])
            b, tb = self.operand(st, fr, r[3])
            return self.binop(r[1], a, b, ta, fr, pc)
        if k == 'cast':
            v, ty = self.operand(st, fr, r[1])
            return self.cast(v, ty, tsubst(r[2], fr.env), r[3]), r[2]
        if k == 'tuple':
            return tup(*[self.operand(st, fr, o)[0] for o in r[1]]), 'tuple'
        if k == 'array':
            return cat(*[unit(self.operand(st, fr, o)[0]) for o in r[1]]), 'array'
        if k == 'repeat':
            v, _ = self.operand(st, fr, r[1])
            m = re.match(r'^(\d+)', r[2])
            if m:
                n = I(int(m.group(1)))
            else:
                c, _ = self.const(st, fr, re.sub(r'^const ', '', r[2]))
                n = c
            kv = fresh('k', 'I', (0, 2**63 - 1))
            return flat(n, kv, unit(v)), 'array'
        if k == 'closure':
            return mk(r[1], 0, *[self.operand(st, fr, o)[0] for _, o in r[2]]), r[1]
        if k == 'agg':
            return self.aggregate(st, fr, r)
        raise Unsupported('rvalue ' + k)

    def isinit(self, st, loc):
        return loc[1] in st.m

    def aggregate(self, st, fr, r):
        path, names, ops = r[1], r[2], r[3]
        vals = [self.operand(st, fr, o)[0] for o in ops]
        path = tsubst(path, fr.env)
        # strip generics: A::<..>::B
        s, _, last, _ = split_call(path)
        lastb = last.split('<')[0]
        if s is not None:
            b = base(s)
            if b in ENUMS and lastb in ENUMS[b]:
                v = ENUMS[b].index(lastb)
                if names and (b, v) in ENUMNAMES:
                    o = ENUMNAMES[(b, v)]
                    d = dict(zip(names, vals))
                    vals = [d[n] for n in o]
                return mk(b, v, *vals), s
        b = base(path)
        if names is not None:
            k = self.skey(path)
            order = STRUCTS.get(k) or STRUCTS.get(b)
            if order is not None and set(order) == set(names):
                d = dict(zip(names, vals))
                vals = [d[n] for n in order]
            return mk(b, 0, *vals), path
        if s is None and not vals and lastb not in STRUCTS:
            c = [(e, vs.index(lastb)) for e, vs in ENUMS.items() if lastb in vs]
            if len(c) == 1:
                return mk(c[0][0], c[0][1]), c[0][0]
        if s is None and lastb not in STRUCTS:
            c = [(e, vs.index(lastb)) for e, vs in ENUMS.items() if lastb in vs]
            if len(c) == 1:
                return mk(c[0][0], c[0][1], *vals), c[0][0]
        return mk(b, 0, *vals), path

    def binop(self, op, a, b, ty, fr, pc):
        bt = base(ty)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            lo, hi = TYR[bt]
            return tup(r, or_(lt(r, I(lo)), lt(I(hi), r))), 'tuple'
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked') and a.sort == 'I':
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            return r, ty
        if a.sort == 'U' and bt in ('f64', 'f32'):
            if op in ('Add', 'Mul') and a.op == 'app' and (a.args[0] in ('f64', 'f32') or a.args[0] == 'i2f' and is_int(a.args[1])):
                a, b = b, a         # commutative: constants on the right
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                return app('f' + op.lower(), a, b), ty
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op == 'Gt':
                    return app('flt', b, a, sort='B'), 'bool'
                if op == 'Ge':
                    return app('fle', b, a, sort='B'), 'bool'
                if op == 'Ne':
                    return not_(app('feq', a, b, sort='B')), 'bool'
                return app('f' + op.lower(), a, b, sort='B'), 'bool'
        if op == 'Eq':
            return eq(a, b), 'bool'
        if op == 'Ne':
            return ne(a, b), 'bool'
        if a.sort == 'B' and op in ('BitAnd', 'BitOr', 'BitXor'):
            return {'BitAnd': and_(a, b), 'BitOr': or_(a, b), 'BitXor': not_(eq(a, b))}[op], 'bool'
        if a.sort == 'I':
            if op == 'Lt':
                return lt(a, b), 'bool'
            if op == 'Le':
                return le(a, b), 'bool'
            if op == 'Gt':
                return lt(b, a), 'bool'
            if op == 'Ge':
                return le(b, a), 'bool'
            if op == 'Div':
                return tdiv(a, b), ty
            if op == 'Rem':
                return tmod(a, b), ty
            if op == 'Cmp':
                return ite(lt(a, b), mk('Ordering', 0), ite(eq(a, b), mk('Ordering', 1), mk('Ordering', 2))), 'std::cmp::Ordering'
            n = b.args[0] if b.op == 'int' and bt in TYR else None
            if n is not None and op in ('Shl', 'ShlUnchecked') and 0 <= n < TYR[bt][1].bit_length() + (TYR[bt][0] < 0):
                return wrap(mul(a, I(1 << n)), bt), ty
            if n is not None and op in ('Shr', 'ShrUnchecked') and 0 <= n < TYR[bt][1].bit_length() + (TYR[bt][0] < 0):
                return floordiv(a, 1 << n), ty
            if n is not None and op == 'BitAnd' and n >= 0 and n & (n + 1) == 0:
                return sub(a, mul(I(n + 1), floordiv(a, n + 1))), ty
        raise Unsupported(f'binary {op} on {ty}')

    def cast(self, v, src, dst, kind):
        if kind.startswith('IntToInt'):
            sb, db = base(src), base(dst)
            if v.sort == 'B':
                return b2i(v)
            if sb in TYR and db in TYR:
                (a, b), (c, d) = TYR[sb], TYR[db]
                if c <= a and b <= d:
                    return v
            if db in TYR:
                return wrap(v, db)
            raise Unsupported('cast to ' + dst)
        if kind.startswith('IntToFloat'):
            return app('i2f', v)
        if kind.startswith('FloatToInt'):
            return app('f2i', v, base(dst), sort='I', rng=TYR[base(dst)])
        if kind.startswith('FloatToFloat'):
            return app('f2f', v, base(dst))
        # PointerCoercion(Unsize|ReifyFnPointer|..), PtrToPtr, Transmute
        if kind.startswith('Transmute'):
            raise Unsupported('transmute')
        return v

    # ------------------------------------------------------------- calls
    def docall(self, st, fr, pc, t, goto):
        _, dst, fname, aops, ret = t
        args, tys = [], []
        for o in aops:
            v, ty = self.operand(st, fr, o)
            args.append(v)
            tys.append(tsubst(ty, fr.env))
        dty = tsubst(self.dstty(fr, dst), fr.env)
        try:
            if fname.startswith(('copy ', 'move ')):
                fv, _ = self.operand(st, fr, mir.parse_operand(fname))
                v = self.call_value(st, pc, fr, fv, args, tys)
            else:
                v = self.call(st, pc, fr, tsubst(fname, fr.env), args, tys, dty)
        except Diverge as d:
            self.panic(fr, pc, TRUE, 'diverges: ' + fname[:80])
            return
        if ret is None:
            return
        if isinstance(v, T) and v.sort == 'U' and sort_of(dty) != 'U' and v.op in ('sym', 'app', 'fld', 'at'):
            v = tm._mk(v.op, v.args, sort_of(dty))
        self.assign(st, fr, dst, v)
        goto(ret, pc, st)

    def dstty(self, fr, dst):
        ty = fr.fn.locals.get(dst[0], '?')
        for p in dst[1]:
            if p[0] == 'f':
                ty = p[2]
            elif p[0] == 'deref':
                ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
        return ty

    def call(self, st, pc, fr, fname, args, tys, dty='?'):
        selfty, trait, meth, gs = split_call(fname)
        info = CallInfo(self, st, pc, fr, fname, selfty, trait, meth, gs, tys, dty)
        # explicit overrides (contracts of crate functions)
        l = self.resolve(selfty, trait, meth, gs, tys, dty)
        if l is not None:
            lz, env = l
            for pat, c in self.contracts.items():
                if lz.name == pat or lz.name.endswith('::' + pat):
                    if lz.name not in self.stack:
                        self.used_contracts[lz.name] = self.used_contracts.get(lz.name, 0) + 1
                        return c(info, args)
            return self.call_fn(st, lz, args, tys, env, pc)
        f = self.models.find(info)
        if f is None:
            raise Unsupported('no contract for ' + fname[:160])
        self.used_models[info.key] = self.used_models.get(info.key, 0) + 1
        return f(info, *args)

    def resolve(self, selfty, trait, meth, gs, tys, dty):
        """crate function for a call, with its type environment"""
        cands = self.prog.by.get(meth)
        if not cands:
            return None
        best = []
        tb = base(trait) if trait else None
        for l in cands:
            if l.kind != 'fn' or len(l.args) != len(tys):
                continue
            env = {}
            if selfty is None:
                if l.trait is not None or l.implfor is not None:
                    continue
                ok_ = True
            elif trait is not None:
                if l.implfor is None and l.trait is None:
                    continue
                lt_ = base(l.trait) if l.trait else None
                if lt_ != tb:
                    continue
                if l.implfor == 'Self':
                    env['Self'] = selfty
                elif l.implfor is not None and '$' not in l.implfor:
                    e2 = {}
                    if is_tyvar(selfty) and not is_tyvar(l.implfor):
                        continue
                    if not unify(l.implfor, selfty, e2):
                        continue
                    env.update({k: v for k, v in e2.items()})
                # trait generic args, e.g. From<X>
                if l.trait and '<' in l.trait and '<' in trait and '$' not in l.trait:
                    if not all(unify(x, y, env) for x, y in zip(generics(l.trait), generics(trait))):
                        continue
            else:
                # inherent or free function with a module path
                if l.implfor is None and l.trait is None:
                    if not (l.name == selfty + '::' + l.meth or l.name.endswith('::' + selfty + '::' + l.meth) or (selfty + '::' + l.meth).endswith('::' + l.name)):
                        continue
                elif l.trait is None:
                    ib = base(l.implfor) if '$' not in l.implfor else base(selfty)
                    if ib != base(selfty):
                        continue
                    if '::' in strip_ref(selfty).split('<')[0]:
                        pref = strip_ref(selfty).split('<')[0].rsplit('::', 1)[0]
                        if not (l.name.startswith(pref + '::') or '::' + pref + '::' in l.name or pref.split('::')[0] in ('std', 'core')) and len([c for c in cands if c.implfor and base(c.implfor) == ib]) > 1:
                            continue
                elif l.trait == selfty:
                    env['Self'] = tys[0] if tys else '?'
                    env['Self'] = strip_ref(env['Self'])
                else:
                    continue
            good = True
            for (_, p), a in zip(l.args, tys):
                p2 = tsubst(p, {k: v for k, v in env.items() if k == 'Self'})
                if not unify(p2, a, env):
                    good = False
                    break
            if good and l.kind == 'fn' and dty not in ('?', ''):
                e3 = dict(env)
                if not is_tyvar(l.ret) and not unify(tsubst(l.ret, {k: v for k, v in env.items() if k == 'Self'}), dty, e3):
                    good = False
                elif good and is_tyvar(l.ret):
                    if not l.ret.startswith('<') and l.ret not in env and l.ret != 'Self' and not is_tyvar(dty):
                        env[l.ret] = dty
                elif good:
                    env.update({k: v for k, v in e3.items() if k not in env and is_tyvar(k) and not is_tyvar(v)})
            if good:
                best.append((l, env))
        if not best:
            return None
        if len(best) > 1:
            ex = [b for b in best if b[0].implfor != 'Self']
            if len(ex) >= 1 and len(ex) < len(best):
                best = ex
        if len(best) > 1 and selfty is not None:
            pref = [b for b in best if b[0].name.startswith(strip_ref(selfty).split('::')[0] + '::')]
            if len(pref) == 1:
                best = pref
        if len(best) > 1:
            # prefer exact textual types
            sc = []
            for l, env in best:
                sc.append((sum(ty_norm(p) == ty_norm(a) for (_, p), a in zip(l.args, tys)) + (ty_norm(l.ret) == ty_norm(dty)), -len(env)))
            m = max(sc)
            best = [b for b, s in zip(best, sc) if s == m]
        if len(best) > 1 and all(b[0].name == best[0][0].name and b[0].trait is None and b[0].implfor is None for b in best):
            best = best[:1]         # constructors are emitted more than once
        if len(best) > 1:
            raise Unsupported('ambiguous call ' + meth + ': ' + ', '.join(b[0].name for b in best[:3]))
        return best[0]

    def call_value(self, st, pc, fr, f, args, tys=None):
        """call a closure / function item with a list of argument values"""
        if f.op == 'ptr':
            f = self.read(st, self.deref(f, None))
        if f.op == 'mk' and isinstance(f.args[0], str) and f.args[0].startswith('{closure@'):
            ls = self.prog.by.get(f.args[0], [])
            if not ls:
                raise Unsupported('closure ' + f.args[0])
            l = ls[0]
            a0 = l.args[0][1]
            if a0.startswith('&mut') or a0.startswith('&') and 'mut {' in a0:
                p = self.heap(st, f)
            else:
                p = f
            env = {}
            if fr is not None:
                env.update(fr.env)
            if len(l.args) != 1 + len(args):
                raise Unsupported('closure arity')
            return self.call_fn(st, l, [p] + list(args), ['?'] * (1 + len(args)), env, pc)
        if f.op == 'mk' and f.args[0].startswith('fn:'):
            name = f.args[0][3:]
            # tuple-struct / enum constructors used as functions
            s, tr, last, gs = split_call(name)
            if tr is None and s is not None and base(s) in ENUMS and last in ENUMS[base(s)]:
                return mk(base(s), ENUMS[base(s)].index(last), *args)
            if tr is None and s is None and last in STRUCTS:
                return mk(last, 0, *args)
            return self.call(st, pc, fr, name, args, tys or ['?'] * len(args))
        if f.op == 'mk' and f.args[0] in ENUMS and len(f.args) == 2:
            return mk(f.args[0], f.args[1], *args)
        raise Unsupported('call of an unknown function value ' + show(f)[:80])

    def guarded(self, st, pc, c, fn):
        """run fn(state) only when c holds; returns its value (meaningful under c)"""
        p2 = self.addpc(tuple(pc), c)
        if p2 is None:
            return None
        s2 = st.copy()
        v = fn(s2, p2)
        p3 = self.addpc(tuple(pc), not_(c))
        if p3 is None:
            ms = s2
        else:
            npc, ms = self.merge2((tuple(p2), s2), (tuple(p3), st.copy()))
        # merge2 may drop an impossible branch
        st.m.clear()
        st.m.update(ms.m)
        return v

    # ------------------------------------------------------------- loops
    def loop(self, st0, fr, pc, header, body):
        fn = fr.fn
        succ, pos, loops, livein, addr, dead = self.analyse(fn)
        k = fresh('k', 'I', (0, 2**63 - 1))
        st0 = st0.copy()
        # locals dead at the header are dropped
        for c in list(st0.m):
            if c[0] == fr.fid and c[1] not in livein[header] and c[1] not in addr:
                del st0.m[c]
        M = {}       # leaf (cell, path) -> sym
        nobs = len(self.obs)
        inv = next((h for pat, h in self.invs.items() if (
            any(b.term[0] == 'call' and isinstance(b.term[2], str) and pat.search(b.term[2]) for b in (fn.blocks[i] for i in body)) if isinstance(pat, re.Pattern)
            else pat == '*' or fn.name == pat or fn.name.endswith('::' + pat))), None)
        saved = (len(self.facts), len(self.rws), len(self.exits), len(self.invobs), self.discovering)
        if inv is not None:
            self.discovering = True
        for rnd in range(30):
            S = State(dict(st0.m))
            for (cell, path), v in M.items():
                if not path:
                    S.m[cell] = v
                else:
                    S.m[cell] = self.upd(S.m[cell], list(path), v, self.celltype(cell))
            del self.obs[nobs:]
            self.ctx.append(('loop', k))
            try:
                outs = self.region(S.copy(), fr, (), header, body, header)
            finally:
                self.ctx.pop()
            backs = outs.get('back', [])
            if not backs:
                # runs at most once
                break
            bpc, bst = self.merge(backs)
            new = False
            for c in list(S.m):
                u, v = S.m[c], bst.m.get(c)
                if v is None:
                    continue
                for path, sub_ in self.diff(c, u, v, ()):
                    leaf = (c, path)
                    if leaf in M:
                        continue
                    # an existing deeper leaf is absorbed
                    for l2 in [l2 for l2 in M if l2[0] == c and l2[1][:len(path)] == path]:
                        del M[l2]
                    cur = st0.m[c]
                    for s in path:
                        cur = self.step(cur, s)
                    M[leaf] = fresh('v', cur.sort)
                    new = True
            if not new:
                break
        else:
            raise Unsupported('loop did not stabilise')
        res = []
        exits = {b: v for b, v in outs.items() if b not in ('back', 'return')}
        if 'return' in outs:
            raise Unsupported('return inside a loop body')
        if not backs:
            self.discovering = saved[4]
            for b, its in exits.items():
                p, s = self.merge(its)
                res.append((b[1], tuple(list(pc) + [x for x in p if x not in pc]), s))
            return res
        if inv is not None:
            self.discovering = saved[4]
            for l, n in zip((self.facts, self.rws, self.exits, self.invobs), saved):
                del l[n:]
            return self.loop_inv(inv, st0, S, fr, pc, header, body, k, nobs, M)
        # update expressions
        inits, upds = {}, {}
        for (cell, path), v in M.items():
            a, b = st0.m[cell], bst.m[cell]
            for s in path:
                a, b = self.step(a, s), self.step(b, s)
            inits[v] = a
            upds[v] = b
        # conditions known inside an iteration that continues
        cont = and_(*bpc)
        upds = {v: self.assume(u, bpc) for v, u in upds.items()}
        closed = self.solve(inits, upds, k)
        m = dict(closed)
        # exits
        pcs = []
        for b, its in exits.items():
            p, s = self.merge(its)
            s = s.copy()
            self.assume_state(s, p)
            pcs.append((b[1], p, s))
        E = or_(*[and_(*p) for _, p, _ in pcs]) if pcs else FALSE
        E = subst(E, m)
        if E is FALSE:
            n = app('never', k, sort='I')
            res_none = True
        else:
            n = first(None, k, E)
            if self.guess and n.op == 'first':
                w = self.guess.exit(E, k)
                n = n if w is None else w
        unending = []
        if k not in E.fv and E is not TRUE and n.op != 'int':
            # ends at once or never
            unending = [Ob(fr.name, 'a loop that does not end', and_(*pc, not_(E)), tuple(self.ctx))]
            n = n if E is FALSE else ite(E, I(0), app('never', k, sort='I'))
        elif any(y.op == 'first' and y.args[1] is NONE for y in ites(n)):
            self.ends(fr, M, upds, bpc, k, nobs)
        # obligations recorded in the body
        kk = k
        fixed = []
        for o in self.obs[nobs:]:
            facts = []
            for f in o.facts:
                if f == ('loop', k):
                    facts += [('ge0', kk), ('le', kk, n)]
                else:
                    facts.append(tuple(subst(x, m) if isinstance(x, T) else x for x in f))
            fixed.append(Ob(o.where, o.kind, and_(*pc, subst(o.bad, m)), tuple(facts)))
        self.obs[nobs:] = fixed + unending
        if E is FALSE:
            return []
        mm = {v: subst(c, {k: n}) for v, c in closed.items()}
        mm[k] = n
        for b, p, s in pcs:
            memo = {}
            p2 = [tm._sub(x, mm, memo) for x in p]
            # conditions that hold at the exit index by definition of n
            if len(pcs) == 1:
                p2 = []
            q = tuple(pc)
            for x in p2:
                x = self.atfirst(x, n)
                q = self.addpc(q, x)
                if q is None:
                    break
            if q is None:
                continue
            ns = State({c: tm._sub(v, mm, memo) for c, v in s.m.items()})
            if len(pcs) == 1:
                pass
            res.append((b, q, ns))
        return res

    def ends(self, fr, M, upds, bpc, k, nobs):
        """termination of a loop without a bound on its iterations: a counter that every further iteration moves one way
        (its overflow is an obligation of its own) or a sequence that gets shorter"""
        import prove as pv
        ctx = tuple(self.ctx) + (('loop', k),)
        fs = list(bpc) + [not_(o.bad) for o in self.obs[nobs:] if o.facts == ctx]
        for (cell, path), v in M.items():
            u = upds[v]
            if v.sort == 'I':
                ty = path[-1][4] if path else fr.fn.locals.get(cell[1], '?') if cell[0] == fr.fid else self.celltype(cell)
                if base(ty) in TYR and (pv.prove(lt(v, u), pv.Facts(fs)) is None or pv.prove(lt(u, v), pv.Facts(fs)) is None):
                    return
            elif v.sort == 'U' and u.op in ('sslice', 'ite') and pv.prove(lt(len_(u), len_(v)), pv.Facts(fs)) is None:
                return
        raise Unsupported('termination of a loop of ' + fr.name)

    def loop_inv(self, h, st0, S, fr, pc, header, body, k, nobs, M):
        """a loop under a stated invariant: everything the loop changes is arbitrary at its head, constrained by the
        invariant alone.  h(executor, state at the head, k) -> dict with
          map:   symbol of the head -> term (the shape the invariant gives it)
          facts: what the invariant says about iteration k
          goals: function (state, iteration) -> [(label, a, b)] with b None for a boolean a"""
        name = fr.fn.name.split('::')[-1]
        self.entry = st0        # the state in which the loop is entered
        r = h(self, S, k)
        mp = r.get('map', {})
        memo = {}
        S = State({c: tm._sub(v, mp, memo) for c, v in S.m.items()})
        facts = list(r.get('facts', ())) + [le(I(0), k)]
        for lb, a, b in r['goals'](S, k, S):
            facts.append(a if b is None else eq(a, b))
        for lb, a, b in r['goals'](st0, I(0), st0):
            self.invobs.append((f'{name}: loop invariant holds on entry: {lb}', a, b, list(pc)))
        del self.obs[nobs:]
        self.facts += facts
        outs = self.region(S.copy(), fr, (), header, body, header)
        if 'return' in outs:
            raise Unsupported('return inside a loop body')
        for o in self.obs[nobs:]:
            o.bad = and_(*pc, o.bad)
        if outs.get('back'):
            bpc, bst = self.merge(outs['back'])
            for c in S.m:
                if c in bst.m:
                    for path, _ in self.diff(c, S.m[c], bst.m[c], ()):
                        if not any(c == c2 and path[:len(p2)] == p2 for c2, p2 in M):
                            raise Unsupported('the loop changes more than expected')
            for lb, a, b in r['goals'](bst, add(k, I(1)), S):
                self.invobs.append((f'{name}: loop invariant is kept: {lb}', a, b, list(pc) + list(bpc)))
        res = []
        for b, its in outs.items():
            if b == 'back':
                continue
            p, s = self.merge(its)
            s = s.copy()
            self.assume_state(s, p)
            q = tuple(pc)
            for y in p:
                q = self.addpc(q, y)
                if q is None:
                    break
            if q is not None:
                res.append((b[1], q, s))
        self.exits.append(or_(not_(and_(*pc)), *[and_(*p) for _, p, _ in res]))
        return res

    def atfirst(self, x, n):
        """simplify a condition at the exit index n = first(N, P): n <= N always"""
        if n.op == 'first' and n.args[1] is not NONE:
            N = n.args[1]
            # n < N / n >= N
            if x is lt(n, N) or x is ne(n, N):
                return ne(n, N) if False else lt(n, N)
        return x

    def assume_state(self, st, pc):
        """values of the state under the literals pc"""
        memo = {}
        for c, v in list(st.m.items()):
            w = self.assume(v, pc, memo)
            if w is not v:
                st.m[c] = w

    def assume(self, u, pc, memo=None):
        """simplify u under the literals pc (shallow, on ite conditions)"""
        if memo is None:
            memo = {}
        lits = {}
        for p in pc:
            for l in (p.args if p.op == 'and' else (p,)):
                lits[l] = TRUE
                lits[not_(l)] = FALSE
        if not lits:
            return u

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t in lits:
                r = lits[t]
            elif t.op == 'ite':
                c = go(t.args[0])
                if c is TRUE:
                    r = go(t.args[1])
                elif c is FALSE:
                    r = go(t.args[2])
                else:
                    r = ite(c, go(t.args[1]), go(t.args[2]))
            elif t.op in ('mk', 'cat', 'lin', 'unit', 'and', 'or', 'not'):
                r = tm.rebuild(t, go)
            else:
                r = t
            memo[t] = r
            return r
        return go(u)

    def diff(self, cell, u, v, path):
        """leaves where v differs from u"""
        if u is v:
            return
        if u.op == 'mk' and v.op == 'mk' and u.args[:2] == v.args[:2] and len(u.args) == len(v.args) and len(u.args) > 2:
            ty = self.celltype(cell) if not path else path[-1][4]
            for i, (x, y) in enumerate(zip(u.args[2:], v.args[2:])):
                fty = self.fieldty(ty, u.args[1], i)
                yield from self.diff(cell, x, y, path + (('f', u.args[1], i, x.sort, fty),))
            return
        yield path, v

    def fieldty(self, ty, variant, i):
        b = base(ty)
        f = FTYPES.get((self.skey(ty) if variant == 0 and b not in ENUMS else b, variant))
        if f and i < len(f):
            return f[i]
        return '?'

    def solve(self, inits, upds, k):
        """closed forms in k of the recurrences v(0)=init, v(k+1)=upd"""
        res = {}
        todo = dict(upds)
        vs = set(upds)
        while todo:
            prog = False
            for v in list(todo):
                u = subst(todo[v], {x: c for x, c in res.items() if x in todo[v].fv})
                todo[v] = u
                dep = [x for x in vs if x in u.fv and x not in res and x is not v]
                if dep:
                    continue
                res[v] = self.closed1(v, inits[v], u, k)
                del todo[v]
                prog = True
            if prog:
                continue
            # a strongly connected component without outside dependencies
            comp = self.scc(todo, vs, res)
            order = sorted(comp, key=lambda x: x.id)
            ini = [inits[v] for v in order]
            steps = [todo[v] for v in order]
            for i, v in enumerate(order):
                res[v] = rec(k, ini, order, k, steps, i) if k not in () else None
            for v in order:
                del todo[v]
        return res

    def scc(self, todo, vs, res):
        g = {v: [x for x in todo if x in todo[v].fv and x is not v] for v in todo}

        def reach(a):
            s, st = set(), [a]
            while st:
                x = st.pop()
                for y in g[x]:
                    if y not in s:
                        s.add(y)
                        st.append(y)
            return s
        R = {v: reach(v) | {v} for v in todo}
        best = min(R.values(), key=len)
        return best

    def inplace(self, v, v0, u, k, j):
        """iteration k replaces element k by a function of it: the elements below k are mapped, the others as before"""
        pre, post = sslice(v, I(0), k), sslice(v, add(k, I(1)), len_(v))

        def go(t):
            if t.op == 'ite':
                a, b = go(t.args[1]), go(t.args[2])
                return None if a is None or b is None else ite(t.args[0], a, b)
            if t is v:
                return at(v, k)
            if t.op == 'cat':
                us = [(y, z) for y in t.args if (z := el(y)) is not None]
                if len(us) == 1 and t is cat(pre, us[0][0], post):
                    return us[0][1]
            return None

        def el(y):
            if y.op == 'unit':
                return y.args[0]
            if y.op == 'ite':
                a, b = el(y.args[1]), el(y.args[2])
                return None if a is None or b is None else ite(y.args[0], a, b)
            return None
        e = go(u)
        if e is None:
            return None
        a = fresh('e', at(v, k).sort)
        e = subst(e, {at(v, k): a, len_(v): len_(v0)})
        if v in e.fv:
            return None
        f = subst(subst(e, {k: j}), {a: at(v0, j)})
        return cat(flat(k, j, unit(f)), sslice(v0, k, len_(v0)))

    def closed1(self, v, v0, u, k):
        if u is v:
            return v0
        if v not in u.fv:
            if u is v0:
                return v0
            if k not in u.fv:
                return ite(eq(k, I(0)), v0, u)
            return ite(eq(k, I(0)), v0, subst(u, {k: sub(k, I(1))}))
        j = fresh('k', 'I', (0, 2**63 - 1))
        if v.sort == 'I':
            d = sub(u, v)
            if v not in d.fv:
                return add(v0, psum(k, j, subst(d, {k: j})))
        elif v.sort == 'B':
            if u.op == 'or' and v in u.args:
                p = or_(*[x for x in u.args if x is not v])
                if v not in p.fv:
                    return or_(v0, lt(first(k, j, subst(p, {k: j})), k))
            if u.op == 'and' and v in u.args:
                p = not_(and_(*[x for x in u.args if x is not v]))
                if v not in p.fv:
                    return and_(v0, le(k, first(k, j, subst(p, {k: j}))))
        else:
            if u.op == 'cat' and u.args and u.args[0] is v:
                r = cat(*u.args[1:])
                if v not in r.fv:
                    return cat(v0, flat(k, j, subst(r, {k: j})))
            r = self.inplace(v, v0, u, k, j)
            if r is not None:
                return r
        if self.guess:
            w = self.guess.rec(v, v0, u, k)
            if w is not None:
                return w
        return rec(k, [v0], [v], k, [u], 0)


def ites(t):
    if t.op == 'ite':
        yield from ites(t.args[1])
        yield from ites(t.args[2])
    elif t.op == 'lin':
        for y, _ in t.args[1]:
            yield from ites(y)
    else:
        yield t


class Diverge(Exception):
    pass


ENUMNAMES = {('XmlEvent', 3): ['name', 'attributes', 'namespace'], ('XmlEvent', 4): ['name']}
FTYPES[('XmlEvent', 3)] = ['OwnedName', 'Vec<OwnedAttribute>', 'Namespace']
FTYPES[('OwnedAttribute', 0)] = ['OwnedName', 'String']
FTYPES[('OwnedName', 0)] = ['String', 'Option<String>', 'Option<String>']


class CallInfo:
    def __init__(self, ex, st, pc, fr, fname, selfty, trait, meth, gs, tys, dty):
        self.ex, self.st, self.pc, self.fr, self.fname = ex, st, pc, fr, fname
        self.selfty, self.trait, self.meth, self.gs, self.tys, self.dty = selfty, trait, meth, gs, tys, dty
        self.key = (base(trait) if trait else base(selfty) if selfty else '') + '::' + meth
        if trait is None and selfty and re.match(r'^(?:std::boxed::)?Box<', selfty) and meth in ('new', 'pin', 'from_raw', 'leak', 'new_uninit'):
            self.key = 'Box::' + meth

    def get(self, p):
        """value behind a reference (pointer or shared value)"""
        if p.op == 'ptr' or (p.op == 'ite' and self.ex.hasptr(p)):
            return self.ex.read(self.st, self.ex.deref(p, ('val', p)))
        return p

    def deep(self, p):
        for _ in range(6):
            q = self.get(p)
            if q is p:
                return q
            p = q
        return p

    def set(self, p, v):
        loc = self.ex.deref(p, ('val', p))
        # a pointer to a pointer (e.g. &mut &mut W): follow
        while loc[0] == 'loc':
            cur = self.ex.read(self.st, loc)
            if cur.op == 'ptr':
                loc = self.ex.deref(cur, loc)
            else:
                break
        self.ex.write(self.st, loc, v)

    def panic(self, c, kind):
        self.ex.panic(self.fr, self.pc, c, kind)

    def call(self, f, *args):
        return self.ex.call_value(self.st, self.pc, self.fr, f, list(args))

    def guarded(self, c, fn):
        """fn(info under c) -> value; None if c is impossible"""
        if c is TRUE:
            return fn(self)
        if c is FALSE:
            return None

        def run(s2, p2):
            i = CallInfo(self.ex, s2, p2, self.fr, self.fname, self.selfty, self.trait, self.meth, self.gs, self.tys, self.dty)
            return fn(i)
        return self.ex.guarded(self.st, self.pc, c, run)
