"""The events of an XML text given as a term: the XML grammar, as far as writers of OSM data use it.

The text is a concatenation of literal pieces and of pieces of known content (escaped text, numbers); conditional pieces
and repetitions are read once, for all conditions and lengths.  What is not well formed raises Broken; a text whose
form is not understood raises Unsupported."""
from term import *
from exe import Unsupported
import term as tm

START, END, SPACE = 3, 4, 8
ENT = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
SAFE = ('dec', 'fdec', 'ndigits')       # numbers: digits, sign, point, letters
NAMEC = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:')


class Broken(Exception):
    pass


def start(name, attrs):
    """attrs: name -> Option term"""
    a = []
    for n, o in sorted(attrs.items()):
        a += [lit(n), o]
    return mk('XmlEvent', START, mk('OwnedName', 0, lit(name), NONE, NONE), app('attrs', *a), mk('Namespace', 0))


def end(name):
    return mk('XmlEvent', END, mk('OwnedName', 0, lit(name), NONE, NONE))


class L:
    """state of the reader"""

    def __init__(self):
        self.mode = 'text'
        self.name = ''          # name being read (of an element, attribute, entity)
        self.elem = ''
        self.attr = ''
        self.attrs = {}
        self.value = []
        self.quote = ''
        self.stack = []
        self.text = []
        self.events = []

    def copy(self):
        c = L.__new__(L)
        c.__dict__.update(self.__dict__)
        for k in ('attrs', 'value', 'stack', 'text', 'events'):
            setattr(c, k, self.__dict__[k].copy())
        return c

    def key(self):
        return (self.mode, self.name, self.elem, self.attr, self.quote, tuple(self.stack))

    def fail(self, why):
        raise Broken(f'{why} (in {self.mode}, element {self.elem or (self.stack[-1:] or [""])[0]!r}, attribute {self.attr!r})')

    # ---- one character of the text itself
    def char(self, c):
        m = self.mode
        ws = c in ' \t\r\n'
        if m == 'text':
            if c == '<':
                self.space()
                self.mode, self.name = 'tag', ''
            elif ws:
                self.text.append(I(ord(c)))
            else:
                self.fail(f'text {c!r} between elements')
        elif m == 'tag':
            if c == '/' and not self.name:
                self.mode = 'endtag'
            elif c == '?' and not self.name:
                self.mode = 'decl'
            elif c in NAMEC:
                self.name += c
            elif ws or c in '/>':
                if not self.name:
                    self.fail('an element without name')
                self.elem, self.attrs, self.mode = self.name, {}, 'intag' if ws else 'tagend'
                if not ws:
                    self.char_(c)
            else:
                self.fail(f'{c!r} in the name of an element')
        elif m == 'decl':
            # the declaration: up to ?>
            if c == '>' and self.name.endswith('?'):
                if self.stack or self.events:
                    self.fail('an XML declaration inside the document')
                self.mode, self.name = 'text', ''
            else:
                self.name += c
        elif m in ('intag', 'tagend'):
            if ws:
                self.mode = 'intag'
            elif c in '/>':
                self.char_(c)
            elif m == 'intag' and c in NAMEC:
                self.mode, self.attr = 'attr', c
            else:
                self.fail(f'{c!r} in a tag')
        elif m == 'empty':
            if c != '>':
                self.fail(f'{c!r} after / in a tag')
            self.opened()
            self.closed(self.elem)
        elif m == 'attr':
            if c == '=':
                self.mode = 'eq'
            elif c in NAMEC:
                self.attr += c
            else:
                self.fail(f'{c!r} in the name of an attribute')
        elif m == 'eq':
            if c in '"\'':
                self.quote, self.value, self.mode = c, [], 'value'
                if self.attr in self.attrs:
                    self.fail('an attribute given twice')
            else:
                self.fail(f'{c!r} instead of a quoted value')
        elif m == 'value':
            if c == self.quote:
                self.attrs[self.attr] = some(cat(*self.value))
                self.mode, self.quote, self.value, self.attr = 'tagend', '', [], ''
            elif c == '<':
                self.fail('< in an attribute')
            elif c == '&':
                self.mode, self.name = 'entity', ''
            else:
                self.value.append(lit(' ' if ws else c))
        elif m == 'entity':
            if c != ';':
                self.name += c
                if len(self.name) > 8 or c in '"\'<& ':
                    self.fail('an unfinished entity')
            else:
                n = self.name
                if n in ENT:
                    self.value.append(lit(ENT[n]))
                elif n[:1] == '#' and n[1:].isdigit():
                    self.value.append(lit((int(n[1:]),)))
                else:
                    self.fail(f'unknown entity {n}')
                self.mode, self.name = 'value', ''
        elif m == 'endtag':
            if c in NAMEC:
                self.name += c
            elif c == '>':
                self.closed(self.name)
                self.mode, self.name = 'text', ''
            else:
                self.fail(f'{c!r} in an end tag')
        else:
            raise Unsupported('xml mode ' + m)

    def char_(self, c):
        """the end of a start tag"""
        if c == '/':
            self.mode = 'empty'
        else:
            self.opened()

    def space(self):
        if self.text:
            self.events.append(unit(mk('XmlEvent', SPACE, cat(*[unit(x) for x in self.text]))))
            self.text = []

    def opened(self):
        self.events.append(unit(start(self.elem, self.attrs)))
        self.stack.append(self.elem)
        self.mode, self.name, self.attrs = 'text', '', {}
        if self.mode == 'text':
            self.elem = ''

    def closed(self, name):
        if not self.stack or (name or self.stack[-1]) != self.stack[-1]:
            self.fail(f'end tag {name!r}, open elements {self.stack}')
        self.events.append(unit(end(self.stack.pop())))
        self.mode = 'text'

    # ---- pieces
    def read(self, t):
        if t.op == 'cat':
            for p in t.args:
                self.read(p)
        elif t.op == 'lit':
            for c in t.args[0]:
                self.char(chr(c))
        elif t.op == 'unit' and t.args[0].op == 'int':
            self.char(chr(t.args[0].args[0]))
        elif t.op == 'ite':
            self.branch(t)
        elif t.op == 'flat':
            self.repeat(t)
        elif t.op == 'app' and t.args[0] == 'esc':
            if self.mode != 'value':
                raise Unsupported('escaped text outside of an attribute')
            self.value.append(t.args[1])
        elif t.op == 'app' and t.args[0] in SAFE:
            if self.mode != 'value':
                raise Unsupported('a number outside of an attribute')
            self.value.append(t)
        elif t.op == 'fld' and t.args[1:3] == (0, 0) and t.args[0].op == 'at' and t.args[0].args[0].op == 'app' and t.args[0].args[0].args[0] == 'map_entries':
            # the key of a header: assumed to be an XML name no other attribute has
            if self.mode != 'intag':
                raise Unsupported('a name here')
            self.mode, self.attr = 'attr', '\0' + show(t)
        elif self.mode in ('value', 'text'):
            self.fail('text written without escaping: ' + show(t)[:120])
        else:
            raise Unsupported('text in a tag: ' + show(t)[:120])

    def branch(self, t):
        c = t.args[0]
        a, b = self.copy(), self.copy()
        a.read(t.args[1])
        b.read(t.args[2])
        if a.mode == 'intag' and b.mode == 'tagend' or a.mode == 'tagend' and b.mode == 'intag':
            a.mode = b.mode = 'tagend'
        if a.key() != b.key():
            raise Broken(f'the text is not balanced whether or not {show(c)[:200]}: {a.key()} / {b.key()}')
        if a.text != b.text:
            raise Unsupported('space depends on a condition')
        n = {}
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            n[k] = ite(c, a.attrs.get(k, NONE), b.attrs.get(k, NONE))
        a.attrs = n
        a.value = [ite(c, cat(*a.value), cat(*b.value))] if a.value != b.value else a.value
        if a.events != b.events:
            a.events = [ite(c, cat(*a.events), cat(*b.events))]
        self.__dict__.update(a.__dict__)

    def repeat(self, t):
        k = fresh('k', 'I', (0, 2**63 - 1))
        a = self.copy()
        if self.mode == 'text':
            self.space()
            a = self.copy()
            a.events = []
            a.read(opn(t, k))
            a.space()
            if a.key() != self.key():
                raise Broken('a repeated part is not balanced: ' + str(a.key()))
            self.events.append(flat(t.args[1], k, cat(*a.events)))
        elif self.mode in ('tagend', 'intag'):
            a.attrs = {}
            a.read(opn(t, k))
            if a.mode == 'tagend' and self.mode == 'intag':
                self.mode = 'tagend'
            if a.key() != self.key() or any(n[0] != '\0' for n in a.attrs):
                raise Unsupported('repeated attributes')
        else:
            raise Unsupported('a repetition inside a value')


def read(t, stack=()):
    """events of a text; -> (events, open elements)"""
    l = L()
    l.stack = list(stack)
    l.read(t)
    l.space()
    if l.mode != 'text':
        l.fail('the text ends inside a tag')
    return cat(*l.events), l.stack
