"""P20: what the changeset tag reader makes of the events of a changeset dump.

From position p, let p+d be the first end tag of a changeset and p+s, s < d, the start tag before it.  next_tag gives the
id of that element and the tags of the events between, and goes on after the end tag, whatever the reader held before."""
from spec_p19 import *
from spec_p19 import ASSUMPTIONS

TR = 'ChangesetTagReader<R>'
RET = 'std::result::Result<std::option::Option<(u64, std::vec::Vec<(std::string::String, std::string::String)>)>, anyhow::Error>'


def between(w, e, starts):
    r = [ne(discr(e), I(EOF)), or_(ne(discr(e), I(END)), ne(elname(fld(e, END, 0)), lit('changeset')))]
    if not starts:
        r.append(or_(ne(discr(e), I(START)), ne(elname(fld(e, START, 0)), lit('changeset'))))
    for d in (START, EMPTYEL):
        el = fld(e, d, 0)
        r.append(imp(and_(eq(discr(e), I(d)), eq(elname(el), lit('tag'))),
                     and_(w.present(el, 'k'), w.present(el, 'v'), *[not_(w.present(el, '!'))] * bool(w.bad))))
    return r


class Scene20(Scene):
    def __init__(self, v, start=True, end='end', bad=None, tagbad=None, noid=False):
        self.v = v
        w = self.w = World(v)
        w.generic = ('k', 'v', 'id')
        w.types = {'id': 'u64'}
        p, s, d = [fresh(n, 'I', POS) for n in 'psd']
        e0, e1, e2 = fresh('e'), fresh('e'), fresh('e')
        self.p, self.s, self.d, self.e0 = p, s, d, e0
        if tagbad and tagbad[1] == 'attribute' or bad == 'attribute':
            w.bad.append((None, None))
            w.ends.append((None, None))
        before = lambda k: between(w, ev(add(p, k)), False)
        points = ()
        if start:
            w.facts.append(lt(s, d))
            w.special[add(p, s)] = mk('Event', START, e0)
            w.names[e0] = lit('changeset')
            w.resets.append((s, before, before))
            points = (s,)
            w.facts.append(not_(w.present(e0, 'id')) if noid else w.present(e0, 'id'))
            if w.bad:
                w.facts.append(not_(w.present(e0, '!')))
        w.loops.append((d, before, points))
        at_end = add(p, d)
        if bad == 'number':
            # the element at p + d is a changeset whose id is no number
            w.special[at_end] = mk('Event', START, e2)
            w.names[e2] = lit('changeset')
            w.notnum.add((None, 'id'))
            w.facts += [w.present(e2, 'id'), not_(w.isnum(w.text(w.raw(e2, 'id'))))]
            w.ends.append((None, 'id'))
        elif bad == 'attribute':
            w.special[at_end] = mk('Event', START, e2)
            w.names[e2] = lit('changeset')
            w.facts.append(w.present(e2, '!'))
        elif tagbad:
            kind, what = tagbad
            w.special[at_end] = mk('Event', kind, e2)
            w.names[e2] = lit('tag')
            w.facts.append(w.present(e2, '!') if what == 'attribute' else not_(w.present(e2, what)))
        elif end == 'end':
            w.special[at_end] = mk('Event', END, e1)
            w.names[e1] = lit('changeset')
        elif end == 'eof':
            w.special[at_end] = mk('Event', EOF)
        else:
            w.broken.append(at_end)
        w.facts = [x for x in w.facts if x is not TRUE]
        w.q.append(forall(1, lambda i: imp(and_(le(p, i), lt(i, at_end), *[ne(i, add(p, y)) for y in points]), and_(*between(w, ev(i), False))), lambda i: [ev(i)]))

    def tags(self):
        w = self.w
        k = fresh('k', 'I', POS)
        e = ev(add(self.p, self.s, k, I(1)))
        el = ite(eq(discr(e), I(EMPTYEL)), fld(e, EMPTYEL, 0), fld(e, START, 0))
        return flat(sub(self.d, add(self.s, I(1))), k, ite(is_tag(e), unit(tup(attr(w, el, 'k'), attr(w, el, 'v'))), EMPTY))


def run(v):
    new = memo(lambda: reader(v, 'ChangesetTagReader::<R>::new', TR))

    def start():
        x, r, q = new()
        return prove(B(qpos(r) is I(0) and any(y is q for y in r.args[2:]))) or v.panics(x)
    v.ob('ChangesetTagReader::new: at the first event of the document', start)
    v.assumptions += openfile.ASSUMPTIONS
    xe = {'Reader::from_reader': lambda i, r: mk('QReader', 0, app('xml_events', i.deep(r)), I(0))}
    FR = 'ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>>'
    openfile.opened(v, 'ChangesetTagReader::from_filename', FR.replace('Reader<', 'Reader::<', 1) + '::from_filename', ('ChangesetTagReader::<R>::new', TR), '&str',
                    f'std::result::Result<{FR}, anyhow::Error>', True, extra=xe)

    def other(names, wants, **k):
        def scene():
            S = Scene20(v, **k)
            _, r0, q = new()
            return (S,) + S.go('ChangesetTagReader::<R>::next_tag', at_position(v, r0, q, S.p), TR, RET)
        get = memo(scene)
        for name, want in zip(names, wants):
            def g(want=want):
                S, x, st, r, after = get()
                F = Facts(S.w.facts, q=S.w.q)
                return S.within(lambda: want(S, r, after, F))()
            v.ob(name, g)
        v.ob(names[0] + ' (no panic)', lambda: get()[0].within(lambda: v.panics(get()[1], Facts(get()[0].w.facts, q=get()[0].w.q)))())
    here = lambda S, r, after, F: prove_eq(qpos(after), add(S.p, S.d, I(1)), F)
    nm = 'a changeset with a body'
    val = lambda r: fld(fld(r, 0, 0), 1, 0)
    other([nm + ': it is read', nm + ': its id', nm + ': its own tags', nm + ': the reader is behind the element'],
          [lambda S, r, after, F: prove(and_(eq(discr(r), I(0)), eq(discr(fld(r, 0, 0)), I(1))), F),
           lambda S, r, after, F: prove_eq(fld(F.simp(val(r)), 0, 0), S.w.num(S.e0, 'id'), F),
           lambda S, r, after, F: prove_eq(fld(F.simp(val(r)), 0, 1), S.tags(), F), here])
    err_ = lambda S, r, after, F: prove(eq(discr(r), I(1)), F)
    other(['no further changeset with a body: the end'], [lambda S, r, after, F: prove_eq(r, ok(NONE), F)], start=False, end='eof')
    for st in (False, True):
        w = 'inside of' if st else 'before'
        other([f'an error of the parser {w} a changeset: an error'], [err_], start=st, end='error')
        for d, n in ((START, 'with'), (EMPTYEL, 'without')):
            for f in TAG:
                other([f'{w} a changeset, a tag {n} content lacks {f}: an error'], [err_], start=st, tagbad=(d, f))
            other([f'{w} a changeset, a tag {n} content has an attribute that cannot be read: an error'], [err_], start=st, tagbad=(d, 'attribute'))
    other(['a changeset with a body but no id: an error'], [err_], noid=True)
    other(['the id is no number: an error'], [err_], start=False, bad='number')
    other(['an attribute of a changeset cannot be read: an error'], [err_], start=False, bad='attribute')
    v.ob('ChangesetTagReader yields what next_tag gives, once per call', lambda: yields(v, TR, 'next_tag'))
