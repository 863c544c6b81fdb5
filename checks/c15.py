"""C15 tabulated types and their generators"""
import os
import random
import re
import time
import core
import dom
import interp
import tablegen
from core import Obl, Stats, REPO, SEED, TIER
from dom import mk, bits_of, mask, BV
from ir import Module
from wit import HEAD, TABS, TAB_BASE

RULE = ('joint abstract interpretation of reader and generator: every loop of the generator is interpreted for an arbitrary element of its range, its stores into tables are recorded with symbolic '
        'places and values, the emitted text maps tables to arrays; the reader\'s symbolic lookup must stay inside the emitted table and must find, for the same operands, a value that is the '
        'same abstract value as the operation on the generic type (inner arithmetic uninterpreted); where the terms differ, points of the partition decide')

G_COMMON = '''
extern "C" {
i64 h_add(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f+g).v; }
i64 h_sub(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f-g).v; }
i64 h_subn(T v, T w) { return (T)(D(v)+(-D(w))).v; }
i64 h_mul(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f*g).v; }
i64 h_dvd(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f/g).v; }
i64 h_inv(T v) { float f = GD(v); return (T)G(1/f).v; }
i64 h_square(T v) { float f = GD(v); return (T)G(f*f).v; }
i64 h_half(T v) { float f = GD(v); return (T)G(f/2).v; }
i64 h_twice(T v) { float f = GD(v); return (T)G(f*2).v; }
i64 h_exp2(T v) { float f = GD(v); return (T)G(exp2(f)).v; }
u64 h_tof(T v) { return fb((float)GD(v)); }
i64 g_inv(T v) { return (T)GD(v).inv().v; }
'''
G_POSIT = '''
i64 g_add(T v, T w) { return (GD(v)+GD(w)).v; }
i64 g_sub(T v, T w) { return (GD(v)-GD(w)).v; }
i64 g_mul(T v, T w) { return G(GD(v)*GD(w)).v; }
i64 g_dvd(T v, T w) { return (GD(v)/GD(w)).v; }
i64 g_square(T v) { return G(GD(v)*GD(v)).v; }
i64 g_half(T v) { return (GD(v)/G(2)).v; }
i64 g_twice(T v) { return G(GD(v)*G(2)).v; }
'''
B8_HEAD = '''
#include <stdint.h>
#include <string.h>
typedef int64_t i64; typedef uint64_t u64;
static inline float bf(uint32_t x) { float f; memcpy(&f,&x,4); return f; }
static inline double bd(uint64_t x) { double f; memcpy(&f,&x,8); return f; }
static inline uint32_t fb(float f) { uint32_t x; memcpy(&x,&f,4); return x; }
'''
B8 = '''
typedef binary8tab P;
typedef anyfloat_emu<BINARY8_EXP,BINARY8_MAN,int8_t,uint8_t, float> G;
typedef int8_t T;
static inline P D_(int8_t x) { return P(P::DeepInit(),x); }
static inline G GD_(int8_t x) { G g; g.v = x; return g; }
#define D(x) D_(x)
#define GD(x) GD_(x)
extern "C" {
i64 w_add(T v, T w) { return (D(v)+D(w)).v; }
i64 w_sub(T v, T w) { return (D(v)-D(w)).v; }
i64 w_mul(T v, T w) { return (D(v)*D(w)).v; }
i64 w_dvd(T v, T w) { return (D(v)/D(w)).v; }
i64 w_inv(T v) { return D(v).inv().v; }
i64 w_half(T v) { return D(v).half().v; }
i64 w_square(T v) { return D(v).square().v; }
i64 w_exp2(T v) { return D(v).exp2().v; }
u64 w_tof(T v) { return fb((float)D(v)); }
i64 w_twice(T v) { return D(v).twice().v; }
i64 w_neg(T v) { return (-D(v)).v; }
i64 w_sabs(T v) { return std::abs(D(v)).v; }
i64 w_cmp(T v, T w) { P a = D(v), b = D(w); return (a==b?1:0)|(a!=b?2:0)|(a<b?4:0)|(a<=b?8:0)|(a>b?16:0)|(a>=b?32:0); }
i64 w_fromf(uint32_t x) { return P(bf(x)).v; }
i64 w_fromd(uint64_t x) { return P(bd(x)).v; }
i64 w_fromi(int32_t x) { return P((int)x).v; }
i64 w_addeq(T v, T w) { P a = D(v); a += D(w); return a.v; }
i64 w_muleq(T v, T w) { P a = D(v); a *= D(w); return a.v; }
}
'''
G_B8 = '''
i64 g_neg(T v) { return (T)(-GD(v)).v; }
i64 g_sabs(T v) { return (T)GD(v).abs().v; }
i64 h_addeq(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f+g).v; }
i64 h_muleq(T v, T w) { float f = GD(v), g = GD(w); return (T)G(f*g).v; }
i64 h_subf(T v, T w) { float f = GD(v), g = GD((T)(w ^ 0x80)); return (T)G(f+g).v; }
i64 h_twiceadd(T v) { float f = GD(v); return (T)G(f+f).v; }
i64 h_cmp(T v, T w) { float a = GD(v), b = GD(w); return (a==b?1:0)|(a!=b?2:0)|(a<b?4:0)|(a<=b?8:0)|(a>b?16:0)|(a>=b?32:0); }
i64 h_fromf(uint32_t x) { return (T)G(bf(x)).v; }
i64 h_fromd(uint64_t x) { return (T)G(bd(x)).v; }
i64 h_fromi(int32_t x) { return (T)G((int)x).v; }
'''
OPQ = re.compile(r'@_ZN5Posit.*C2E[fdi]|@_ZNK?5Posit.*(cvfEv|3invEv)$|@_Z(pl|mi|ml|dv)R?K?5Posit|@_ZN12anyfloat_emu.*C2E[fdi]|@_ZNK?12anyfloat_emu.*(cvfEv|3invEv)$')

BIN = ('add', 'sub', 'mul', 'dvd', 'addeq', 'muleq', 'cmp')
UN = ('inv', 'half', 'twice', 'square', 'exp2', 'tof', 'neg', 'sabs', 'fromf', 'fromd', 'fromi')
WIDE = {'fromf': 32, 'fromd': 64, 'fromi': 32}
OTHER = {'sub': ('h_subn', 'h_subf'), 'twice': ('h_twiceadd',)}


def unit(name):
    gen = os.path.join(REPO, 'src', name + '_gen.cpp')
    s = HEAD + '#include <math.h>\n#include <typeinfo>\n#include <fstream>\n#define main gen_main\n#include "%s"\n#undef main\n' % gen
    if name == 'binary8':
        return B8_HEAD + s[s.index('#include <math.h>'):] + '#include "%s/src/binary8.cpp"\n' % REPO + B8 + G_COMMON.replace('h_subn', 'x_subn') + G_B8 + '}\n'
    H, N, es, F = TABS[name]
    return s + '#include "%s.hpp"\n#include "%s/src/%s.cpp"\n' % (name, REPO, name) + \
        TAB_BASE % {'P': name, 'T': 'int%d_t' % H, 'N': name + 'ns', 'extra': ''} + G_COMMON + G_POSIT + '}\n'


class Table:
    """one table-driven type"""
    def __init__(self, name, path):
        self.name = name
        self.H, self.N = (8, 8) if name == 'binary8' else TABS[name][:2]
        self.mod = Module(open(path).read(), path)
        self.M = tablegen.GenMachine(self.mod, name + '_gen.cpp')
        self.M.tables = {}
        self.main = [n for n in self.mod.all_names() if re.match(r'@(_Z\d+)?gen_main', n)][0]
        self.vals = {}
        self.depth = 0
        self.records = None

        self.M.main = (self.main, self.argv())

    def argv(self):
        return [1, interp.Ptr(None, 0)][:len(self.mod.func(self.main).params)]

    # ---------------------------------------------------------- emission
    def emission(self, st):
        """{extern table object: (array, count, element size, generator element size)}"""
        M = self.M
        M.emit, M.opaque, M.point = True, OPQ, None
        out = {}
        n = 0
        try:
            for assume, kind, obj, events, pure in interp.analyse(M, lambda: (self.main, self.argv(), None), lambda M_, r, o: self.emap(), 20):
                n += 1
                st.traces += 1
                if kind != 'ok' or n > 1 and obj != out:
                    st.undecided.append('%s: emission of the tables not recognised (%s %s)' % (self.name, kind, obj if kind != 'ok' else ''))
                    return False
                out = obj
        finally:
            M.emit, M.opaque = False, None
        for q, t in out.items():
            for g in self.mod._raw_globals:
                if 'external' in self.mod._raw_globals[g].split('global')[0] and core.demangle(g) == q:
                    M.tables[g] = t
        self.emits = out
        return True

    def emap(self):
        M = self.M
        out = {}
        arrays = {}
        for r in M.recs:
            arrays[r.obj.name] = (r.obj, r.n)
        for q, ((k, v), n, decl) in tablegen.emitted(M).items():
            w = {'i': 32, 'j': 32, 's': 16, 't': 16, 'l': 64, 'm': 64, 'a': 8, 'h': 8, 'c': 8}.get(k, 0)
            for a, (o, z) in arrays.items():
                kk = max(1, (n - 1).bit_length())
                idx = mk(64, [dom.inbit('i0', i) for i in range(kk)] + [0] * (64 - kk))
                at = M.atom(o, dom.mul(idx, z, 64), interp_type(8 * z))
                for ext in (dom.sext, dom.zext):
                    x = at if 8 * z >= w else ext(at, 8 * z, w)
                    if w and 8 * z <= w and dom.compare(x, v, w) == dom.EQUAL:
                        m = re.match(r'u?int(\d+)_t', decl)
                        esz = int(m.group(1)) // 8 if m else tablegen.SIZES.get(decl, 0)
                        out[q] = (a, n, esz, z)
        return out

    # ---------------------------------------------------------- symbolic proof
    def word(self, nm, op):
        if op in WIDE:
            return mk(WIDE[op], [dom.inbit(nm, i) for i in range(WIDE[op])])
        return dom.sext(mk(self.N, [dom.inbit(nm, i) for i in range(self.N)]), self.N, self.H)

    def refs(self, op):
        r = ['h_' + op, 'g_' + op] + list(OTHER.get(op, ()))
        return [x for x in r if self.mod.has('@' + x)]

    def prove(self, op, st):
        """traces: [(assume, proved, note)]"""
        M = self.M
        k = 2 if op in BIN else 1
        out = []

        def run():
            # the generator first, then the reader in the same state of the tables
            return self.main, self.argv(), None

        def finish(M_, ret, o):
            a = [self.word('ab'[i], op) for i in range(k)]
            M.unresolved, M.extern_calls, M.events = [], [], []
            M.plain = True
            try:
                g = M.call('@w_' + op, a)
                loads = list(M.extern_calls)
                ev = list(M.events)
                un = list(M.unresolved)
                ok = None
                for h in self.refs(op):
                    w = M.call('@' + h, a)
                    if dom.compare(g, w, 64) == dom.EQUAL:
                        ok = h
                        break
            finally:
                M.plain = False
            return ok, loads, ev, un
        M.opaque, M.point = OPQ, None
        try:
            for assume, kind, obj, events, pure in interp.analyse(M, run, finish, 600):
                M.plain = False
                st.traces += 1
                st.obl += 1
                if kind == 'ok':
                    ok, loads, ev, un = obj
                    st.obl += 1
                    if not ev:
                        st.proved += 1
                    if ok:
                        st.proved += 1
                    out.append((assume, bool(ok) and not ev, loads, '; '.join(un + [str(e) for e in ev])))
                else:
                    out.append((assume, False, [], '%s %s' % (kind, obj or '; '.join(map(str, events)))))
        finally:
            M.opaque = None
            M.plain = False
        return out

    # ---------------------------------------------------------- points
    def symbolic_records(self):
        """stores of the generator, by partition of the loop variables"""
        if self.records is None:
            M = self.M
            self.records = []
            self.complete = True
            M.opaque, M.point = OPQ, None
            try:
                for assume, kind, obj, events, pure in interp.analyse(M, lambda: (self.main, self.argv(), None), lambda M_, r, o: list(M.recs), 200):
                    if kind == 'ok':
                        self.records.append((assume, obj))
                    else:
                        self.complete = False
            finally:
                M.opaque = None
        return self.records

    def writers(self, arr, off):
        """operands whose iteration writes that element, last store first; None stands for a store that may write it"""
        out = []
        for assume, recs in self.symbolic_records():
            for j, r in enumerate(recs):
                if r.obj.name != arr:
                    continue
                if type(r.off) is int:
                    if r.off == off:
                        out.append((j, {}))
                    continue
                env, ok, hard = {}, True, False
                for i, l in enumerate(r.off.bits):
                    want = off >> i & 1
                    if l < 2:
                        ok = ok and l == want
                    else:
                        v = dom.VARS[l >> 1]
                        if v[0] != 'in':
                            hard = True
                            continue
                        b = want ^ (l & 1)
                        if env.setdefault((v[1], v[2]), b) != b:
                            ok = False
                if hard and ok:
                    out += [(j, e) for e in self.brute(r, off, env)]
                elif ok and self.in_range(r, env):
                    out.append((j, env))
        out.sort(key=lambda x: -x[0])
        return [e for j, e in out]

    def in_range(self, r, env):
        for nm, n in zip(r.names, r.ns):
            if sum(b << i for (m, i), b in env.items() if m == nm) >= n:
                return False
        return True

    def brute(self, r, off, fixed):
        """by the values of the remaining bits of the loop variables; [None] when there are too many"""
        vs = {(d[1], d[2]): v for v, d in enumerate(dom.VARS) if d and d[0] == 'in' and d[1] in r.names}
        free = [(nm, i) for nm, n in zip(r.names, r.ns) for i in range((n - 1).bit_length()) if (nm, i) not in fixed]
        if len(set(r.names)) != len(r.names):
            return [None]
        if len(free) > 12:
            return self.solve(r, off, fixed, vs, free)
        out = []
        try:
            for t in range(1 << len(free)):
                val = dict(fixed)
                for j, x in enumerate(free):
                    val[x] = t >> j & 1
                if not self.in_range(r, val):
                    continue
                env = dom.Env(random.Random(0), 0)
                for x, bit in val.items():
                    if x in vs:
                        env[vs[x]] = bit
                if dom.eval_val(r.off, 64, env, {}) == off:
                    out.append(val)
        except dom.CantEval:
            return [None]
        return out[:4]

    def solve(self, r, off, fixed, vs, free):
        """the same for a place that is a sum of terms with separate operands: each term by enumeration"""
        ks = set()
        pos = 0
        for i, l in enumerate(r.off.bits):
            d = dom.VARS[l >> 1] if l > 1 else None
            if d and d[0] == 'op':
                if l & 1 or d[2] != i:
                    return [None]
                ks.add(d[1])
                pos |= 1 << i
        if len(ks) != 1:
            return [None]
        key = dom.KEYS[ks.pop()]
        if key[0] != 'lin':
            return [None]
        groups = []         # [input bits, terms]
        for t in key[2]:
            sup = {x for b in t[0][1] if b > 1 for x in dom.support(b)}
            g = [sup, [t]]
            rest = []
            for h in groups:
                if h[0] & g[0]:
                    g = [h[0] | g[0], h[1] + g[1]]
                else:
                    rest.append(h)
            groups = rest + [g]
        if len(groups) != 2:
            return [None]
        fv = {vs[x]: b for x, b in fixed.items() if x in vs}
        back = {v: x for x, v in vs.items()}
        tabs = []
        try:
            for sup, terms in groups:
                op = sorted(v for v in sup if v not in fv)
                if len(op) > 12 or any(v not in back for v in sup):
                    return [None]
                tab = {}
                for t in range(1 << len(op)):
                    env = dom.Env(random.Random(0), 0)
                    env.update(fv)
                    for j, v in enumerate(op):
                        env[v] = t >> j & 1
                    memo = {}
                    x = sum(c * dom.eval_bits(bits, env, memo) for (_, bits), c in terms) & mask(64)
                    tab.setdefault(x, []).append({back[v]: env[v] for v in sup})
                tabs.append(tab)
            lo = (pos & -pos).bit_length() - 1
            m = pos >> lo
            if m & (m + 1):
                return [None]
            hi = {}
            for y in tabs[1]:
                hi.setdefault(y >> lo & m, []).append(y)
            out = []
            for x in tabs[0]:
                for carry in range(3):
                    for y in hi.get(((off >> lo) - (x >> lo) - (key[1] >> lo) - carry) & m, ()):
                        if (x + y + key[1]) >> lo & m != off >> lo & m:
                            continue
                        for p in tabs[0][x]:
                            for q in tabs[1][y]:
                                val = dict(fixed, **{})
                                val.update(p)
                                val.update(q)
                                env = dom.Env(random.Random(0), 0)
                                for z, bit in val.items():
                                    if z in vs:
                                        env[vs[z]] = bit
                                if self.in_range(r, val) and dom.eval_val(r.off, 64, env, {}) == off:
                                    out.append(val)
                                    if len(out) >= 4:
                                        return out
            return out
        except dom.CantEval:
            return [None]

    def value_at(self, arr, off, n):
        """element of the filled array, by constant propagation through the iteration that stores it"""
        key = (arr, off)
        if key in self.vals:
            return self.vals[key]
        self.vals[key] = None
        self.depth += 1
        for env in self.writers(arr, off):
            if env is None:
                continue
            M2 = tablegen.GenMachine(self.mod, self.name + '_gen.cpp')
            pin = dom.Pin(random.Random(0), 0)
            pin.update(env)
            # inner loops run under 'b'; a one-dimensional fill under 'a'
            for nm, other in (('a', 'b'), ('b', 'a')):
                if not any(k[0] == nm for k in env) and any(k[0] == other for k in env):
                    for (m, i), b in list(env.items()):
                        pin.setdefault((nm, i), b)
            got = self.pinned(M2, pin, arr, off)
            if got is not None:
                self.vals[key] = got
                break
        self.depth -= 1
        v = self.vals[key]
        if v is None and self.depth:
            del self.vals[key]
        return v

    def pinned(self, M2, pin, arr, off):
        old = dom.PIN
        saved = dom.save_ctx()
        dom.PIN = pin
        M2.point = self.point(M2)
        M2.opaque, M2.opaque_open = OPQ, True
        res = None
        try:
            for assume, kind, obj, events, pure in interp.analyse(M2, lambda: (self.main, self.argv(), None), lambda M_, r, o: list(M2.recs), 4):
                if kind == 'ok' and not assume:
                    for r in obj:
                        if r.obj.name == arr and type(r.off) is int and r.off == off and type(r.val) is int:
                            res = r.val
        finally:
            dom.PIN = old
            dom.restore_ctx(saved)
        return res

    def point(self, M2):
        def get(o, off, ty):
            if type(off) is not int:
                raise interp.Unsupported('element at an unknown place')
            if M2.emitting():
                return M2.atom(o, off, ty)
            # stored just now by the same iteration
            for r in reversed(M2.recs):
                if r.obj.name == o.name and type(r.off) is int and r.off == off and type(r.val) is int:
                    return r.val
            v = self.value_at(o.name, off, ty.size) if self.depth < 3 else None
            if v is None:
                # not known here: an unknown word, which the element sought must not depend on
                return M2.atom(o, off, ty)
            return v
        return get

    def at_point(self, op, a):
        """(value of the reader, values of the references) at constant operands, or None"""
        M = tablegen.GenMachine(self.mod, self.name + '_gen.cpp')
        M.tables = self.M.tables
        M.plain = True
        vals = []
        tab = self.point(M)

        def ext(o, t, off, ty, ins):
            arr, cnt, esz, gsz = t
            if type(off) is not int:
                raise interp.Unsupported('open place')
            if off < 0 or off + ty.size > cnt * esz:
                M.ub('out-of-bounds-read', ins, '%s: byte %d of %d' % (core.demangle(o.name), off, cnt * esz))
            if ty.size != esz or gsz != esz:
                raise interp.Unsupported('sizes')
            v = self.value_at(arr, off, ty.size)
            if v is None:
                if self.complete and not self.writers(arr, off):
                    if 'zeroinitializer' in self.mod._raw_globals.get(arr, ''):
                        return 0        # static storage
                    M.ub('entry-never-written', ins, '%s: byte %d' % (core.demangle(o.name), off))
                raise interp.Unsupported('element not found')
            return v
        M.external = ext
        out = []
        for f in ['w_' + op] + [h for h in self.refs(op)]:
            r = None
            for assume, kind, obj, events, pure in interp.analyse(M, lambda: ('@' + f, list(a), None), lambda M_, r, o: (r, list(M.extern_calls)), 4):
                if kind == 'ok' and not assume and type(obj[0]) is int:
                    r = ('ok', obj[0] & mask(64))
                elif kind == 'ub' and f.startswith('w_'):
                    r = ('ub', str(events[-1]))
            if r is None:
                if f.startswith('w_'):
                    return None
                continue
            out.append(r)
        return out[0], [x[1] for x in out[1:]]


def interp_type(n):
    class T:
        pass
    t = T()
    t.k, t.n, t.size = 'i', n, n // 8
    return t


def check_type(name, path, st):
    t0 = time.time()
    T = Table(name, path)
    rng = random.Random(SEED)
    if not T.emission(st):
        st.obl += 2 * sum(1 for op in BIN + UN if T.mod.has('@w_' + op) and T.refs(op))
        return st
    for op in BIN + UN:
        if not T.mod.has('@w_' + op) or not T.refs(op):
            continue
        st.cells += 1
        bad = []
        for assume, ok, loads, note in T.prove(op, st):
            if not ok:
                bad.append((assume, note))
        if not bad:
            continue
        # points of what is not proved: the extremes, and points of each partition
        k = 2 if op in BIN else 1
        N, H = (WIDE[op],) * 2 if op in WIDE else (T.N, T.H)
        ext = [0, 1, 2, mask(N), mask(N) - 1, 1 << (N - 1), (1 << (N - 1)) + 1, mask(N - 1), 1 << (N - 2), (1 << (N - 2)) + 1, 3 << (N - 2), 5 << (N - 4), 11 << (N - 4)]
        pts = []
        for assume, note in bad[:8]:
            dom.reset_ctx()
            try:
                dom.install_facts(list(assume))
                n = 0
                for env, memo in dom.concretisations(assume, [], rng, 120):
                    p = [0] * k
                    for v, b in env.items():
                        d = dom.VARS[v]
                        if d[0] == 'in' and d[1] in 'ab'[:k] and d[2] < N:
                            p['ab'.index(d[1])] |= b << d[2]
                    pts.append(tuple(p))
                    n += 1
                    if n > 12:
                        break
            except dom.Infeasible:
                pass
        for i in range(40):
            pts.append(tuple(rng.choice(ext) if i % 3 == 0 else rng.getrandbits(N) for _ in range(k)))
        agree = 0
        hit = False
        for p in dict.fromkeys(pts):
            words = [dom.sext(x, N, H) & mask(H) for x in p]
            r = T.at_point(op, words)
            if time.time() - t0 > 240:
                break
            if r is None or (r[0][0] == 'ok' and not r[1]):
                continue
            (k0, g), ws = r
            if k0 == 'ub' or g not in ws:
                st.viol.append({'cell': '%s %s' % (name, op), 'what': 'entry read for the operands', 'unit': name, 'inputs': ', '.join(hex(x) for x in p),
                                'got': hex(g) if k0 == 'ok' else g, 'want': ' or '.join(hex(w) for w in ws), 'abstract_got': bad[0][1][:300], 'abstract_want': 'value of the operation',
                                'where': ['src/%s_gen.cpp' % name, 'include/%s.hpp' % name]})
                hit = True
                break
            agree += 1
        if not hit:
            st.undecided.append('%s %s: not proved (%s), %d points agree' % (name, op, bad[0][1][:200], agree))
    st.funcs |= T.M.seen_funcs
    return st


class Late(Exception):
    pass


def late(*a):
    raise Late()


def _one(x):
    import signal
    st = Stats()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(420)
    try:
        check_type(*x, st)
        return st
    except Late:
        st.undecided.append('%s: time limit' % x[0])
    except Exception:
        import traceback
        st.undecided.append('INTERNAL %s: %s' % (x[0], traceback.format_exc()[-1500:]))
        return st


def check(tmp):
    import multiprocessing as mp
    units = {n: unit(n) for n in ('posit8', 'posit10', 'posit12', 'binary8')}
    lls, errs = core.compile_all(units, tmp)
    out = Stats()
    for n, e in errs.items():
        out.undecided.append('unit %s not analysed: %s' % (n, e[:400]))
    with mp.Pool(4) as pool:
        for st in pool.imap_unordered(_one, [(n, lls[n]) for n in units if n in lls]):
            out.merge(st)
    out.units = {n: 1 for n in lls}
    return dict(rule=RULE, stats_list=[('tables', out)], min_obl=60)
