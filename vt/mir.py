"""Parser for the textual MIR that rustc emits for /repo's crate (rustc --emit=mir).

Nothing is rewritten by hand: every function body, promoted constant and closure the
verifier reasons about is parsed from this text, which the compiler lowered from the
current source.  What the parser drops: cleanup/unwind blocks, drop glue, storage
markers and debug scopes (see DESIGN.md)."""
import re

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


def scan(s, i, stop):
    """index of the first top-level char in `stop` at or after i (brackets, strings, ->, chars)"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c == "'":
            # char literal or lifetime
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:], re.S)
            if m:
                i += m.end()
                continue
            i += 1
            continue
        if d == 0 and c in stop:
            return i
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '<':
            # '<' is always a bracket in MIR operands (comparisons are Lt(..)); '<<' does not occur
            d += 1
        elif c == '>':
            if s[i - 1] == '-' or s[i - 1] == '=':
                pass
            else:
                d -= 1
        i += 1
    return -1


def split_top(s, sep=','):
    out = []
    i = 0
    while True:
        j = scan(s, i, sep)
        if j < 0:
            t = s[i:].strip()
            if t:
                out.append(t)
            return out
        out.append(s[i:j].strip())
        i = j + 1


def find_top(s, pat, start=0):
    """first top-level occurrence of the literal string pat"""
    i = start
    while True:
        j = scan(s, i, pat[0])
        if j < 0:
            return -1
        if s.startswith(pat, j):
            return j
        # step over this char keeping bracket structure
        if pat[0] in OPEN:
            k = match_close(s, j)
            i = k + 1
        else:
            i = j + 1


def match_close(s, i):
    """s[i] opens a bracket; index of its partner"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:], re.S)
            if m:
                i += m.end()
                continue
        elif c in '([{<':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced ' + s)


def unescape(body, byte=False):
    """Rust string literal body -> str (latin-1 bytes as str when byte)"""
    out = []
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        d = body[i + 1]
        if d == 'n':
            out.append('\n'); i += 2
        elif d == 't':
            out.append('\t'); i += 2
        elif d == 'r':
            out.append('\r'); i += 2
        elif d == '0':
            out.append('\0'); i += 2
        elif d in '\\"\'':
            out.append(d); i += 2
        elif d == 'x':
            out.append(chr(int(body[i + 2:i + 4], 16))); i += 4
        elif d == 'u':
            j = body.index('}', i)
            out.append(chr(int(body[i + 3:j], 16))); i = j + 1
        elif d == '\n':
            i += 2
            while i < n and body[i] in ' \n\t':
                i += 1
        else:
            raise ValueError('escape ' + body[i:i + 4])
    return ''.join(out)


# ---------------------------------------------------------------- places
# place = (local, [proj...]); proj: ('deref',) ('f', i, ty) ('v', name) ('ix', local) ('cix', i, n, fromend)

def parse_place(s):
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise ValueError('place? ' + s)
    return p


def _place(s):
    if s.startswith('('):
        e = match_close(s, 0)
        inner, rest = s[1:e], s[e + 1:]
        if inner.startswith('*'):
            (l, pr), r = _place(inner[1:])
            if r.strip():
                raise ValueError('place? ' + s)
            p = (l, pr + [('deref',)])
        else:
            (l, pr), r = _place(inner)
            r = r.lstrip() if not r.startswith('.') else r
            if r.startswith('as '):
                p = (l, pr + [('v', r[3:].strip())])
            elif r.startswith('.'):
                m = re.match(r'\.(\d+): ', r)
                p = (l, pr + [('f', int(m.group(1)), r[m.end():])])
            else:
                raise ValueError('place? ' + s)
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise ValueError('place? ' + s)
        p = (int(m.group(1)), [])
        rest = s[m.end():]
    # index suffixes and field/downcast are handled by the caller's parens
    while rest.startswith('['):
        e = match_close(rest, 0)
        b = rest[1:e]
        m = re.match(r'_(\d+)$', b)
        if m:
            p = (p[0], p[1] + [('ix', int(m.group(1)))])
        else:
            m = re.match(r'(-?)(\d+) of (\d+)$', b)
            if not m:
                m2 = re.match(r'(\d+):(-?\d*)$', b) or re.match(r'(\d+)\.\.(-?\d*)$', b)
                if m2:
                    p = (p[0], p[1] + [('sub', b)])
                    rest = rest[e + 1:]
                    continue
                raise ValueError('index? ' + rest)
            p = (p[0], p[1] + [('cix', int(m.group(2)), int(m.group(3)), m.group(1) == '-')])
        rest = rest[e + 1:]
    return p, rest


# ---------------------------------------------------------------- operands / rvalues
# operand = ('copy', place) | ('move', place) | ('const', text)

def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'\(?\*?_\d+', s) and re.match(r'^[_\d().*: \w\[\]<>&]+$', s):
        try:
            return ('copy', parse_place(s))
        except ValueError:
            pass
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Cmp', 'Offset',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&raw '):
        m = re.match(r'&raw (const|mut) (\(fake\) )?', s)
        return ('rawref', m.group(1), parse_place(s[m.end():]))
    if s.startswith('&'):
        t = s[1:].lstrip()
        t = re.sub(r"^'\w+ ", '', t)
        if t.startswith('mut '):
            return ('refmut', parse_place(t[4:]))
        t = re.sub(r'^(fake |shallow |\(fake\) )', '', t)
        return ('ref', parse_place(t))
    m = re.match(r'discriminant\(', s)
    if m:
        return ('discr', parse_place(s[m.end():-1]))
    m = re.match(r'Len\(', s)
    if m:
        return ('len', parse_place(s[m.end():-1]))
    m = re.match(r'deref_copy ', s)
    if m:
        return ('use', ('copy', parse_place(s[m.end():])))
    m = re.match(r'([A-Z]\w+)\(', s)
    if m and m.group(1) in BINOPS and match_close(s, m.end() - 1) == len(s) - 1:
        a, b = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in UNOPS and match_close(s, m.end() - 1) == len(s) - 1:
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith(('copy ', 'move ', 'const ')):
        k = find_top(s, ' as ')
        if k > 0:
            j = s.rindex(' (')
            # cast kind is the last parenthesised group
            d = match_start(s)
            return ('cast', parse_operand(s[:k]), s[k + 4:d].strip(), s[d + 1:-1])
        return ('use', parse_operand(s))
    if s.startswith('['):
        inner = s[1:-1]
        k = scan(inner, 0, ';')
        if k >= 0:
            return ('repeat', parse_operand(inner[:k]), inner[k + 1:].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        e = match_close(s, 0)
        name = s[:e + 1]
        rest = s[e + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k = scan(f, 0, ':')
                caps.append((f[:k].strip(), parse_operand(f[k + 1:])))
        return ('closure', name, caps)
    # aggregates: Path { f: op } | Path(op, ..) | Path
    k = agg_split(s)
    if k < 0:
        return ('agg', s, None, [])
    path = s[:k].strip()
    if s[k] == '{':
        fs = []
        for f in split_top(s[k + 1:-1]):
            c = scan(f, 0, ':')
            fs.append((f[:c].strip(), parse_operand(f[c + 1:])))
        return ('agg', path, [a for a, _ in fs], [b for _, b in fs])
    return ('agg', path, None, [parse_operand(x) for x in split_top(s[k + 1:-1])])


def match_start(s):
    """start of the last top-level parenthesised group ending at len-1"""
    d = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0:
                return i
        i -= 1
    raise ValueError(s)


def agg_split(s):
    """index of the top-level '(' or '{' that starts the fields"""
    i = 0
    while i < len(s):
        j = scan(s, i, '({')
        if j < 0:
            return -1
        e = match_close(s, j)
        if e == len(s) - 1:
            return j
        i = e + 1
    return -1


# ---------------------------------------------------------------- functions

class Fn:
    __slots__ = ('name', 'raw', 'args', 'ret', 'locals', 'blocks', 'kind', 'text', 'dbg', '_loops', '_live', '_an')

    def __repr__(self):
        return f'<fn {self.name}>'


class Block:
    __slots__ = ('stmts', 'term', 'cleanup')


def parse_term(s):
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s in ('return', 'resume', 'unreachable', 'terminate(cleanup)', 'terminate(abi)', 'abort') or s.startswith('terminate') or s.startswith('resume'):
        return (s.split('(')[0],)
    if s.startswith('switchInt('):
        e = match_close(s, 9)
        op = parse_operand(s[10:e])
        m = re.search(r'-> \[(.*)\]$', s)
        tg = []
        other = None
        for x in split_top(m.group(1)):
            a, b = x.split(': bb')
            if a == 'otherwise':
                other = int(b)
            else:
                tg.append((int(a), int(b)))
        return ('switch', op, tg, other)
    if s.startswith('assert('):
        e = match_close(s, 6)
        parts = split_top(s[7:e])
        c = parts[0]
        exp = True
        if c.startswith('!'):
            exp = False
            c = c[1:]
        m = re.search(r'success: bb(\d+)', s[e:])
        return ('assert', parse_operand(c), exp, parts[1], [parse_operand(p) for p in parts[2:]], int(m.group(1)))
    if s.startswith('drop('):
        m = re.search(r'-> \[return: bb(\d+)', s)
        if not m:
            return ('unreachable',)
        e = match_close(s, 4)
        return ('drop', parse_place(s[5:e]), int(m.group(1)))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    # call
    m = re.match(r'^(.*?) = (.*)$', s, re.S)
    k = find_top(s, ' = ')
    dst = s[:k]
    rest = s[k + 3:]
    a = rest.rindex(' -> ')
    tail = rest[a + 4:]
    call = rest[:a]
    m = re.search(r'return: bb(\d+)', tail)
    ret = int(m.group(1)) if m else None
    if tail.startswith('bb'):
        ret = None
    p = match_start(call)
    fname = call[:p].strip()
    args = [parse_operand(x) for x in split_top(call[p + 1:-1])]
    return ('call', parse_place(dst), fname, args, ret)


HDR = re.compile(r'^(fn|const|static|static mut) ', re.S)


def parse(text):
    """-> {name: Fn} (closures, promoted and consts included); duplicates get a list"""
    out = []
    cur = None
    lines = text.split('\n')
    i = 0
    n = len(lines)
    ctfe = False
    while i < n:
        l = lines[i]
        if l and (l.startswith('fn ') or l.startswith('const ') or l.startswith('static ')):
            while not lines[i].rstrip().endswith(('{', ';')) and i + 1 < n:
                i += 1
                l += ' ' + lines[i].strip()
            if l.rstrip().endswith(';'):
                k = find_top(l, ' = const ')
                if k > 0:
                    out.append((l[:k] + ' = {', ['    bb0: {', '        _0 = ' + l[k + 3:].strip(), '        return;', '    }']))
                i += 1
                continue
            j = i + 1
            while j < n and lines[j] != '}':
                j += 1
            if not (ctfe and l.startswith('fn ')):      # a const fn is printed twice; only the run-time body is read
                out.append((l, lines[i + 1:j]))
            ctfe = False
            i = j + 1
        else:
            if l:
                ctfe = l.startswith('// MIR FOR CTFE')
            i += 1
    return [Lazy(h, b) for h, b in out]


class Lazy:
    """header parsed eagerly, body on demand"""

    def __init__(self, hdr, body):
        self.hdr = hdr
        self.body = body
        self._fn = None
        h = hdr.rstrip()
        assert h.endswith('{')
        h = h[:-1].rstrip()
        self.args = []
        if h.startswith('fn '):
            self.kind = 'fn'
            h = h[3:]
            # name ends at the top-level '('
            k = self._name_end(h)
            self.name = h[:k]
            e = match_close(h, k)
            for a in split_top(h[k + 1:e]):
                c = a.index(': ')
                self.args.append((int(a[1:c]), a[c + 2:]))
            r = h[e + 1:].strip()
            self.ret = r[3:].strip() if r.startswith('->') else '()'
        else:
            self.kind = 'const'
            h = re.sub(r'^(const|static mut|static) ', '', h)
            h = re.sub(r'\s*=\s*$', '', h)
            k = find_top(h, ': ')
            self.name = h[:k]
            self.ret = h[k + 2:]

    @staticmethod
    def _name_end(h):
        i = 0
        while True:
            j = scan(h, i, '(')
            if j < 0:
                raise ValueError(h)
            return j

    def fn(self):
        if self._fn is None:
            f = Fn()
            f.name = self.name
            f.raw = getattr(self, "raw", self.name)
            f.args = self.args
            f.ret = self.ret
            f.kind = self.kind
            f._loops = f._live = f._an = None
            f.locals = {i: t for i, t in self.args}
            f.locals[0] = self.ret
            f.blocks = {}
            f.dbg = {}
            cb = None
            buf = ''
            for l in self.body:
                s = l.strip()
                if cb is None:
                    m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
                    if m:
                        f.locals[int(m.group(1))] = m.group(2)
                        continue
                    m = re.match(r'^debug (\S+) => (.*);$', s)
                    if m:
                        f.dbg.setdefault(m.group(1), []).append(m.group(2))
                        continue
                m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
                if m:
                    cb = Block()
                    cb.stmts = []
                    cb.term = None
                    cb.cleanup = bool(m.group(2))
                    f.blocks[int(m.group(1))] = cb
                    raw = []
                    continue
                if cb is not None:
                    if s == '}':
                        if not cb.cleanup:
                            self._block(cb, raw)
                        cb = None
                    else:
                        if raw and not raw[-1].endswith(';'):
                            raw[-1] += '\n' + l
                        else:
                            raw.append(s)
            f.blocks = {k: b for k, b in f.blocks.items() if not b.cleanup}
            self._fn = f
        return self._fn

    @staticmethod
    def _block(b, raw):
        if not raw:
            b.term = ('unreachable',)
            return
        for s in raw[:-1]:
            s = s.rstrip()[:-1]
            if re.match(r'^(StorageLive|StorageDead|nop|FakeRead|PlaceMention|AscribeUserType|Retag|ConstEvalCounter|Coverage|BackwardIncompatibleDropHint)', s):
                continue
            m = re.match(r'^(deinit|assume)\(', s)
            if m:
                continue
            m = re.match(r'^discriminant\(', s)
            if m:
                e = match_close(s, len('discriminant'))
                k = s.index('=', e)
                b.stmts.append(('setdiscr', parse_place(s[13:e]), int(s[k + 1:].strip())))
                continue
            k = find_top(s, ' = ')
            if k < 0:
                b.stmts.append(('raw', s))
                continue
            try:
                b.stmts.append(('asg', parse_place(s[:k]), parse_rvalue(s[k + 3:])))
            except Exception as ex:
                b.stmts.append(('raw', s))
        t = raw[-1].rstrip()
        if t.endswith(';'):
            t = t[:-1]
        b.term = parse_term(t)


if __name__ == '__main__':
    import sys
    fns = parse(open(sys.argv[1]).read())
    print(len(fns))
    bad = 0
    for l in fns:
        try:
            f = l.fn()
        except Exception as e:
            bad += 1
            print('FAIL', l.name, repr(e)[:200])
            continue
        for b in f.blocks.values():
            for s in b.stmts:
                if s[0] == 'raw':
                    bad += 1
                    print('RAW', l.name[:60], s[1][:200])
    print('bad', bad)
