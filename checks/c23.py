"""C23 printing"""
import re
import interp
import core
from core import Cell, Obl
from interp import Obj, Ptr, FnPtr, Unsupported
from wit import posit_unit, positf_unit, HEAD, UNPACKED, tab_unit, Cfg
from cells import *
import configs

RULE = ('abstract interpretation of every stream inserter of the library on an abstract stream: format flags, precision and width are symbolic words, the library\'s inserters for '
        'characters, strings, numbers and bit sets are recorded effects (with the flags in force), manipulators and flag accessors are analysed. For every state of the base flags and every '
        'kind of value: the flags after the call are the flags before it, nothing else of the stream is written, the form selected by the base is the documented one, and the numbers inserted are the pattern / the float value / the fields of the unpacked number')

X = '''
extern "C" {
void w_print(std::ostream *os, T v) { *os << D(v); }
void w_printu(std::ostream *os, T v) { *os << D(v).unpack(); }
u64 w_exp(T v) { return (i64)D(v).unpack().exponent; }
u64 w_fra(T v) { return D(v).unpack().fraction; }
}
'''
XU = '''
void w_printx(std::ostream *os, int ta,int na,i64 ea,u64 fa) { *os << A; }
'''
XT = '''
extern "C" {
void w_print(std::ostream *os, T v) { *os << D(v); }
}
'''
XH = '''
static inline P mkh(uint16_t v) { P p; memcpy(&p, &v, 2); return p; }
extern "C" {
void w_print(std::ostream *os, uint16_t v) { *os << mkh(v); }
u64 w_tof(uint16_t v) { return fb((float)mkh(v)); }
}
'''
DEC, HEX, OCT = 2, 8, 64
BASE = DEC | HEX | OCT
BASES = {'dec': DEC, 'hex': HEX, 'oct': OCT, 'none': 0, 'dec+hex': DEC | HEX, 'dec+oct': DEC | OCT, 'hex+oct': HEX | OCT, 'all': BASE}
IOS = 16
INTS = {'s': (16, 1), 't': (16, 0), 'i': (32, 1), 'j': (32, 0), 'l': (64, 1), 'm': (64, 0), 'x': (64, 1), 'y': (64, 0), 'b': (1, 0)}


class Stream:
    def __init__(self, base, tag=''):
        self.o = Obj('stream', 512)
        for k in range(24, 512, 8):
            self.o.store(k, 8, input_word('st%d' % k, 64))
        for k in (8, 16):
            self.o.store(k, 8, input_word('st%d' % k, 64))
        vt = Obj('vtable', 64)
        vt.store(0, 8, IOS)
        self.o.store(0, 8, Ptr(vt, 24))
        self.vt = vt
        f = [dom.inbit('flags', i) for i in range(17)] + [0] * 15
        for i in range(17):
            if BASE >> i & 1:
                f[i] = base >> i & 1
        self.flags0 = mk(32, f)
        self.o.store(IOS + 24, 4, self.flags0)
        self.o.store(IOS + 28, 4, input_word('st_exc', 32))
        self.eff = []
        self.before = dict(self.o.cells)

    def ptr(self):
        return Ptr(self.o, 0)

    def flags(self):
        return self.o.load(IOS + 24, 4)

    def base(self):
        return dom.and_(self.flags(), BASE, 32)


class Hooks(dict):
    """recorded effects of the standard inserters"""
    def __init__(self):
        dict.__init__(self)
        self.streams = []

    def get(self, name, d=None):
        m = re.match(r'@_ZNSolsE([a-z])$', name)
        if m:
            k = m.group(1)
            return lambda M, ins, a, v: self.num(k, v)
        m = re.match(r'@_ZNSo9_M_insertI([a-z])EERSoT_$', name)
        if m:
            k = m.group(1)
            return lambda M, ins, a, v: self.num(k, v)
        if re.match(r'@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PK[cah]$', name):
            return lambda M, ins, a, v: self.text(M, v)
        if re.match(r'@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_[cah]$', name):
            return lambda M, ins, a, v: self.char(v)
        if name == '@_ZNSo3putEc':
            return lambda M, ins, a, v: self.char(v)
        m = re.match(r'@_ZStlsIcSt11char_traitsIcELm(\d+)EERSt13basic_ostream', name)
        if m:
            n = int(m.group(1))
            return lambda M, ins, a, v: self.bits(v, n)
        if name == '@_ZNSolsEPFRSt8ios_baseS0_E':
            return lambda M, ins, a, v: self.manip(M, v)
        return None

    def st(self, v):
        for s in self.streams:
            if s.o is v[0].obj:
                return s
        raise Unsupported('insertion into another stream')

    def add(self, v, kind, val):
        s = self.st(v)
        s.eff.append((kind, val, s.base()))
        return v[0]

    def num(self, k, v):
        if k in INTS:
            w, sg = INTS[k]
            x = v[1]
            x = x if w == 64 else (dom.sext if sg else dom.zext)(x, w, 64)
            return self.add(v, 'int', x)
        if k in 'fd':
            return self.add(v, k, v[1])
        raise Unsupported('inserter ' + k)

    def text(self, M, v):
        p, t = v[1], ''
        if not isinstance(p, Ptr) or type(p.off) is not int:
            raise Unsupported('string')
        for i in range(400):
            c = p.obj.load(p.off + i, 1)
            if type(c) is not int:
                raise Unsupported('string contents')
            if c == 0:
                break
            t += chr(c)
        return self.add(v, 'text', t)

    def char(self, v):
        c = v[1]
        if type(c) is not int:
            # a character that depends on the operands: not a number
            return self.add(v, 'char', dom.zext(c, 8, 64))
        return self.add(v, 'text', chr(c & 255))

    def bits(self, v, n):
        k = max(8, (n + 63) // 64 * 8)
        x = v[1].obj.load(v[1].off, k)
        if k != 8:
            raise Unsupported('bit set')
        return self.add(v, 'bits', x)

    def manip(self, M, v):
        s = self.st(v)
        if not isinstance(v[1], FnPtr):
            raise Unsupported('manipulator')
        M.call(v[1].name, [Ptr(s.o, IOS)])
        return v[0]


def text_of(eff):
    return ''.join(v for k, v, b in eff if k == 'text')


def state_obls(s):
    r = [Obl('format flags after the call', dom.zext(s.flags(), 32, 64), dom.zext(s.flags0, 32, 64), 64)]
    for off, (n, v) in s.before.items():
        if off in (0, IOS + 24, IOS + 16) or n != 8:    # vtable, flags, width
            continue
        x = s.o.load(off, n)
        if x is not v:
            r.append(Obl('stream state at %d' % off, x, v, 64))
    return r


def yes(what, c):
    return Obl(what, 1 if c else 0, 1, 64)


def nums(eff):
    return [e for e in eff if e[0] not in ('text',)]


def hook(M, *ss):
    h = Hooks()
    h.streams = list(ss)
    M.externals = h


def number_obl(what, e, want):
    """an effect that inserts the number"""
    if e[0] not in ('int',):
        return yes(what + ' inserted as a number', False)
    return Obl(what, e[1], want, 64)


def unpacked_obls(s, t, n, exp, fra, FW):
    """the description of an unpacked number"""
    N = nums(s.eff)
    tx = text_of(s.eff).lower()
    r = []
    if t == REG:
        r.append(yes('exponent, fraction and fraction bits are printed', [e[0] for e in N] == ['int', 'int', 'bits']))
        if [e[0] for e in N] == ['int', 'int', 'bits']:
            r += [Obl('exponent', N[0][1], exp, 64), Obl('base of the exponent', dom.zext(N[0][2], 32, 64), DEC, 64),
                  Obl('fraction', N[1][1], fra, 64), Obl('base of the fraction', dom.zext(N[1][2], 32, 64), HEX, 64),
                  Obl('fraction bits', N[2][1], fra, 64)]
    else:
        r.append(yes('no number is printed', not N))
        name = {INF: 'inf', NAN: 'nan', ZERO: '0'}[t]
        r.append(yes('text names the kind', name in tx and not any(x in tx for x in ('inf', 'nan', '0') if x != name)))
    if t in (REG, INF):
        r.append(yes('text shows the sign', ('-' in tx) == bool(n)))
    return r


def posit_cells(u, c, pats, bases, positf=False):
    def gen():
        for bn in bases:
            for p in pats:
                def setup(M, p=p, bn=bn):
                    s = Stream(BASES[bn])
                    hook(M, s)
                    return '@w_print', [s.ptr(), p.word()], s

                def finish(M, ret, s, p=p, bn=bn):
                    r = state_obls(s)
                    N = nums(s.eff)
                    f = 'oct' if positf else bn
                    w = p.word()
                    if f == 'hex':
                        r.append(yes('the raw pattern is printed', len(N) == 1 and len(s.eff) == 1 and N[0][0] == 'int'))
                        if len(N) == 1 and N[0][0] == 'int':
                            r.append(Obl('raw pattern', N[0][1], word64(w, c.H), 64))
                    elif f == 'dec':
                        r.append(yes('the value is printed', len(N) == 1 and len(s.eff) == 1 and N[0][0] in 'fd'))
                        if len(N) == 1 and N[0][0] in 'fd':
                            ref = M.call('@w_tof' if N[0][0] == 'f' else '@w_tod', [w])
                            got = dom.zext(N[0][1], 32, 64) if N[0][0] == 'f' else N[0][1]
                            r.append(Obl('value', got, ref, 64))
                    elif f == 'oct':
                        x = p.num()
                        t = x.t
                        ex, fr = (M.call('@w_exp', [w]), M.call('@w_fra', [w])) if t == REG else (0, 0)
                        if not (t == INF and not c.both):
                            r += unpacked_obls(s, t, x.n, ex, fr, c.F)
                    return r
                yield Cell(u, '%s%r print(%r) with base %s' % ('PositF ' if positf else '', c, p, bn), setup, finish, 400)
    return gen


def unp_cells(u, F, E):
    def gen():
        for bn in BASES:
            for t, n in ((REG, 0), (REG, 1), (INF, 0), (INF, 1), (NAN, 0), (NAN, 1), (ZERO, 0), (ZERO, 1)):
                def setup(M, t=t, n=n, bn=bn):
                    s = Stream(BASES[bn])
                    hook(M, s)
                    e = dom.sext(input_word('e', E), E, 64) if E < 64 else input_word('e', 64)
                    f = input_word('f', 64, F)
                    return '@w_printx', [s.ptr(), t, n, e, f], (s, e, f)

                def finish(M, ret, o, t=t, n=n):
                    s, e, f = o
                    return state_obls(s) + unpacked_obls(s, t, n, e, f, F)
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> print(kind %d %s) with base %s' % (F, E, t, '+-'[n], bn), setup, finish)
    return gen


def tab_cells(u, c):
    def gen():
        for bn in BASES:
            def setup(M, bn=bn):
                s = Stream(BASES[bn])
                hook(M, s)
                x = dom.sext(input_word('v', c.N), c.N, c.H)
                return '@w_print', [s.ptr(), x], (s, x)

            def finish(M, ret, o):
                s, x = o
                N = nums(s.eff)
                r = state_obls(s) + [yes('one number is printed', len(N) == 1 and N[0][0] == 'int')]
                if len(N) == 1 and N[0][0] == 'int':
                    r.append(Obl('raw pattern', N[0][1], mk(64, list(bits_of(x, c.H))[:c.N] + [0] * (64 - c.N)), 64))
                return r
            yield Cell(u, '%s print(all patterns) with base %s' % (u, bn), setup, finish)
    return gen


def half_cells(u):
    def gen():
        for bn in BASES:
            for sg in (0, 1):
                for e in range(32):
                    def setup(M, bn=bn, sg=sg, e=e):
                        s = Stream(BASES[bn])
                        hook(M, s)
                        x = mk(16, [dom.inbit('v', i) for i in range(10)] + [e >> i & 1 for i in range(5)] + [sg])
                        return '@w_print', [s.ptr(), x], (s, x)

                    def finish(M, ret, o):
                        s, x = o
                        N = nums(s.eff)
                        r = state_obls(s) + [yes('one number is printed', len(N) == 1 and N[0][0] in 'fd')]
                        if len(N) == 1 and N[0][0] in 'f':
                            r.append(Obl('value', dom.zext(N[0][1], 32, 64), M.call('@w_tof', [x]), 64))
                        return r
                    yield Cell(u, 'float16n32 print(sign %d exponent %d) with base %s' % (sg, e, bn), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    cs = cfgs or [c for i, c in enumerate(configs.all_cfgs()) if c.H == 8 or i % 3 == 0]
    for c in cs:
        units[c.name] = posit_unit(c, X)
        P = patterns(c)
        few = [p for p in P if p.kind != 'reg'] + [p for p in P if p.kind == 'reg'][::max(1, len(P) // 10)]
        tasks.append(posit_cells(c.name, c, P, ['dec', 'hex']))
        tasks.append(posit_cells(c.name, c, few, [b for b in BASES if b not in ('dec', 'hex')]))
    for u, c, src in configs.positf_units():
        units[u] = src + X
        tasks.append(posit_cells(u, c, patterns(c), list(BASES), True))
    for F, E in ((8, 8), (8, 16), (16, 16), (16, 32), (32, 32), (64, 32), (64, 64), (32, 8)):
        u = 'u%d_%d' % (F, E)
        units[u] = HEAD + UNPACKED % {'F': F, 'E': E, 'extra': XU}
        tasks.append(unp_cells(u, F, E))
    for u, c, src in configs.tab_units():
        units[u] = src + XT
        tasks.append(tab_cells(u, c))
    units['binary8tab'] = HEAD + '#include "binary8.hpp"\ntypedef binary8tab P;\ntypedef int8_t T;\n#define D(x) P(P::DeepInit(),(T)(x))\n' + XT
    tasks.append(tab_cells('binary8tab', Cfg(8, 8, 0, 8, 'WithNan')))
    units['float16'] = HEAD + '#include "float16native32.hpp"\ntypedef float16n32 P;\n' + XH
    tasks.append(half_cells('float16'))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
