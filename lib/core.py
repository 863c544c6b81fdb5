"""Check driver: compile the witness units from /repo's current tree, partition
the input space, analyse every cell, compare with the specification, report."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CPPPOSIT_REPO', '/repo')
sys.path.insert(0, HERE)

import dom
import interp
from ir import Module

CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
CFLAGS = ['-std=c++14', '-O0', '-gline-tables-only', '-fno-exceptions', '-march=x86-64', '-w',
          '-ffp-contract=off', '-fdiscard-value-names']
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


class AnalysisBroken(Exception):
    pass


def compile_ll(name, src, tmp, extra=(), std=None):
    cpp = os.path.join(tmp, name + '.cpp')
    ll = os.path.join(tmp, name + '.ll')
    with open(cpp, 'w') as f:
        f.write(src)
    flags = list(CFLAGS)
    if std:
        flags[0] = '-std=' + std
    p = subprocess.run([CLANG] + flags + ['-I' + os.path.join(REPO, 'include')] + list(extra) +
                       ['-S', '-emit-llvm', cpp, '-o', ll], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken('witness %s does not compile against %s:\n%s' % (name, REPO, p.stderr[:3000]))
    return ll


def _comp(a):
    try:
        return (a[0], compile_ll(*a[1:]), None)
    except AnalysisBroken as e:
        return (a[0], None, str(e))


def compile_all(units, tmp):
    """units: name -> src | (src, extra flags[, std])"""
    jobs = []
    for n, s in units.items():
        if isinstance(s, tuple):
            jobs.append((n, n, s[0], tmp, tuple(s[1]), s[2] if len(s) > 2 else None))
        else:
            jobs.append((n, n, s, tmp))
    with mp.Pool(min(8, len(jobs))) as pool:
        res = pool.map(_comp, jobs, 1)
    out = {}
    errs = {}
    for n, ll, err in res:
        if err:
            errs[n] = err
        else:
            out[n] = ll
    if not out:
        raise AnalysisBroken(next(iter(errs.values())))
    return out, errs


# ------------------------------------------------------------------ cells
class Cell:
    """one partition of the input space of one witness function"""
    def __init__(self, unit, desc, setup, finish, max_cells=600):
        self.unit, self.desc, self.setup, self.finish, self.max_cells = unit, desc, setup, finish, max_cells
        self.opaque = None      # functions taken as uninterpreted (proof by congruence)
        self.fallback = None    # cells to analyse in full when the congruence proof fails


class Obl:
    """obligation: value `got` must equal `want` (w bits)"""
    __slots__ = ('what', 'got', 'want', 'w')

    def __init__(self, what, got, want, w):
        self.what, self.got, self.want, self.w = what, got, want, w


class Stats:
    def __init__(self):
        self.cells = self.traces = self.obl = self.proved = 0
        self.undecided = []
        self.viol = []
        self.events = {}
        self.funcs = set()
        self.maybe_events = {}
        self.infeasible = 0

    def merge(self, o):
        self.cells += o.cells
        self.traces += o.traces
        self.obl += o.obl
        self.proved += o.proved
        self.infeasible += o.infeasible
        self.undecided += o.undecided
        self.viol += o.viol
        self.funcs |= o.funcs
        for k, v in o.maybe_events.items():
            self.maybe_events[k] = self.maybe_events.get(k, 0) + v


UBKINDS_RESULT = True


def names_of(env):
    """readable input assignment"""
    words = {}
    for v, b in env.items():
        d = dom.VARS[v]
        words.setdefault(d[1], {})[d[2]] = b
    return ', '.join('%s=0x%x' % (n, sum(b << i for i, b in bs.items())) for n, bs in sorted(words.items()))


_reqs = []


def require_range(x, w, lo, hi):
    """precondition on an input word of the cell (also narrows its range)"""
    bits = dom.bits_of(x, w)
    if dom.PIN is not None:
        if type(x) is int and not lo <= x <= hi:
            raise dom.Infeasible()
        return
    dom.C.ranges[bits] = (lo, hi)
    dom.C.ranges[dom.trim(bits)] = (lo, hi)
    _reqs.append((bits, lo, hi))


_shared = {}


def input_word(name, w, n=None):
    """fresh w-bit unsigned word with n symbolic low bits"""
    n = w if n is None else n
    return dom.mk(w, [dom.inbit(name, i) for i in range(n)] + [0] * (w - n))


def run_cell(machine, cell, st, ub_mode, known=None, rng=None, deadline=None):
    """ub_mode: 'report' (UB is a violation), 'ignore' (other check's job)"""
    st.cells += 1
    rng = rng or random.Random(SEED)
    if cell.opaque is not None:
        if congruent(machine, cell, st):
            return
        cs = list(cell.fallback())
        if any(points(machine, c, st, rng) for c in cs if not deadline or time.time() < deadline - 120):
            return
        for c in cs:
            run_cell(machine, c, st, ub_mode, deadline=deadline)
            if len(st.viol) >= 3 or deadline and time.time() > deadline:
                break
        return

    def setup():
        del _reqs[:]
        return cell.setup(machine)
    for assume, kind, obj, events, pure in interp.analyse(machine, setup, cell.finish, cell.max_cells):
        st.traces += 1
        if kind == 'ok':
            bad = []
            if ub_mode == 'only':
                obj = ()
            for o in obj:
                st.obl += 1
                try:
                    v = dom.compare(o.got, o.want, o.w)
                except dom.Infeasible:
                    v = dom.EQUAL
                if v == dom.EQUAL:
                    st.proved += 1
                else:
                    bad.append(o)
            if bad:
                certify(machine, cell, assume, bad, st, rng)
            if ub_mode == 'only':
                st.obl += 1
                if not events:
                    st.proved += 1
                else:
                    report_events(machine, cell, assume, events, st, rng, ub_mode)
        elif kind == 'ub':
            st.obl += 1
            certify_ub(machine, cell, assume, events[-1], st, rng)
        else:
            st.obl += 1
            st.undecided.append('%s: %s %s' % (cell.desc, kind, obj or ''))
        if deadline and time.time() > deadline:
            st.undecided.append('%s: time budget' % cell.desc)
            break
    st.funcs |= machine.seen_funcs


def points(machine, cell, st, rng, n=5):
    """constant propagation at a few points of a cell whose terms differ: a definite difference is a violation"""
    for m in (2, 2, 0, 1, 2, 3, 4)[:n]:
        dom.PIN = dom.Pin(rng, m)

        def setup():
            del _reqs[:]
            return cell.setup(machine)
        try:
            for assume, kind, obj, events, pure in interp.analyse(machine, setup, cell.finish, 50):
                st.traces += 1
                if kind != 'ok':
                    continue
                for o in obj:
                    g, w = o.got, o.want
                    if not assume and type(g) is int and type(w) is int and (g ^ w) & dom.mask(o.w):
                        st.viol.append({'cell': cell.desc, 'what': o.what, 'unit': cell.unit, 'inputs': ', '.join('%s=%s' % x for x in sorted(pin_names(dom.PIN).items())),
                                        'got': hex(g & dom.mask(o.w)), 'want': hex(w & dom.mask(o.w)), 'abstract_got': 'constant', 'abstract_want': 'constant',
                                        'where': sorted({'%s' % demangle(f) for f in machine.seen_funcs})[:40]})
                        return True
        finally:
            dom.PIN = None
    return False


def pin_names(pin):
    v = {}
    for (name, i), b in pin.items():
        v[name] = v.get(name, 0) | b << i
    return {n: hex(x) for n, x in v.items()}


def congruent(machine, cell, st):
    """proof with the inner functions uninterpreted; no verdict other than yes"""
    machine.opaque = cell.opaque
    n = 0
    try:
        def setup():
            del _reqs[:]
            return cell.setup(machine)
        for assume, kind, obj, events, pure in interp.analyse(machine, setup, cell.finish, cell.max_cells):
            st.traces += 1
            if kind != 'ok':
                return False
            for o in obj:
                n += 1
                try:
                    if dom.compare(o.got, o.want, o.w) != dom.EQUAL:
                        return False
                except dom.Infeasible:
                    pass
    finally:
        machine.opaque = None
        st.funcs |= machine.seen_funcs
    st.obl += n
    st.proved += n
    return True


def certify(machine, cell, assume, bad, st, rng):
    n = 0
    try:
        for env, memo in dom.concretisations(assume, list(_reqs), rng):
            n += 1
            for o in bad:
                try:
                    if dom.has_undef(o.got):
                        g = None
                    else:
                        g = dom.eval_val(o.got, o.w, env, memo)
                    wv = dom.eval_val(o.want, o.w, env, memo)
                except dom.CantEval:
                    continue
                if g != wv:
                    st.viol.append({'cell': cell.desc, 'what': o.what, 'unit': cell.unit, 'inputs': names_of(env),
                                    'got': 'uninitialised' if g is None else hex(g), 'want': hex(wv),
                                    'abstract_got': repr(o.got)[:400], 'abstract_want': repr(o.want)[:400],
                                    'where': sorted({'%s' % demangle(f) for f in machine.seen_funcs})[:40]})
                    return
            if n > 60:
                break
    except dom.Infeasible:
        return
    for o in bad:
        st.undecided.append('%s: %s not proved (%s)' % (cell.desc, o.what, 'no point of the partition found' if n == 0 else '%d concretisations agree' % n))


def certify_ub(machine, cell, assume, ev, st, rng):
    for env, memo in dom.concretisations(assume, list(_reqs), rng):
        st.viol.append({'cell': cell.desc, 'what': str(ev), 'unit': cell.unit, 'inputs': names_of(env),
                        'got': 'undefined behaviour', 'want': 'defined result', 'event': ev.kind,
                        'where': ['%s:%s %s' % (ev.file, ev.line, ev.func)]})
        return
    st.undecided.append('%s: %s (no point of the partition found)' % (cell.desc, ev))


def report_events(machine, cell, assume, events, st, rng, ub_mode):
    for ev in events:
        if ev.definite:
            certify_ub(machine, cell, assume, ev, st, rng)
        else:
            hit = False
            if ev.detail.__class__ is tuple:
                op, x, y, w = ev.detail
                for env, memo in dom.concretisations(assume, list(_reqs), rng, 120):
                    try:
                        a = dom.sgn(dom.eval_val(x, w, env, memo), w)
                        b = dom.sgn(dom.eval_val(y, w, env, memo), w)
                    except dom.CantEval:
                        continue
                    r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                    if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                        ev.detail = '%d %s %d in %d bits' % (a, op, b, w)
                        st.viol.append({'cell': cell.desc, 'what': str(ev), 'unit': cell.unit, 'inputs': names_of(env),
                                        'got': 'undefined behaviour', 'want': 'defined result', 'event': ev.kind,
                                        'where': ['%s:%s %s' % (ev.file, ev.line, ev.func)]})
                        hit = True
                        break
                ev.detail = ''
            if not hit:
                k = str(ev)
                st.maybe_events[k] = st.maybe_events.get(k, 0) + 1
                st.undecided.append('%s: possible %s' % (cell.desc, ev))


_dm = {}


def demangle(n):
    n = n.lstrip('@')
    if n not in _dm:
        try:
            _dm[n] = subprocess.run(['llvm-cxxfilt-18', n], capture_output=True, text=True).stdout.strip() or n
        except OSError:
            _dm[n] = n
    return _dm[n]


# ------------------------------------------------------------------ parallel runner
_MODS = {}
_TASKS = []
_UB = 'ignore'
_DEADLINE = None


def _run_task(i):
    st = Stats()
    t = _TASKS[i]
    try:
        for cell in t():
            m = _MACH.get(cell.unit)
            if m is None:
                if cell.unit not in _MODS:
                    if cell.unit not in _UNITS:
                        st.undecided.append('INTERNAL no unit %s for %s' % (cell.unit, cell.desc))
                    break
                m = _MACH[cell.unit] = interp.Machine(_MODS[cell.unit])
            m.seen_funcs = set()
            run_cell(m, cell, st, _UB, deadline=_DEADLINE)
            if len(st.viol) >= 3 or len(st.undecided) > 400:
                break
            if _DEADLINE and time.time() > _DEADLINE:
                st.undecided.append('time budget reached in %s' % cell.desc)
                break
    except Exception as e:
        import traceback
        st.undecided.append('INTERNAL %s' % traceback.format_exc()[-1500:])
    return st


_MACH = {}
_UNITS = set()


def run_tasks(units, tasks, tmp, ub='ignore', budget=600):
    """tasks: list of callables yielding Cells"""
    global _MODS, _TASKS, _UB, _DEADLINE, _MACH, _UNITS
    _UNITS = set(units)
    lls, errs = compile_all(units, tmp)
    _MODS = {n: Module(open(p).read(), p) for n, p in lls.items()}
    _TASKS = tasks
    _UB = ub
    _MACH = {}
    _DEADLINE = time.time() + budget
    total = Stats()
    for n, e in errs.items():
        total.undecided.append('unit %s not analysed: %s' % (n, e[:600]))
    order = list(range(len(tasks)))
    nproc = min(8, max(1, len(tasks)))
    with mp.Pool(nproc) as pool:
        for st in pool.imap_unordered(_run_task, order, 1):
            total.merge(st)
            if len(total.viol) >= 6:
                pool.terminate()
                break
    total.units = {n: len(m.all_names()) for n, m in _MODS.items()}
    return total


# ------------------------------------------------------------------ reporting
def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith('#') or ln.startswith('fixed:'):
                continue
            m = re.match(r'^KNOWN-FINDING: property=(\S+) id=(\S+) match=/(.*?)/ (.*)$', ln)
            if m:
                out.append(m.groups())
    return out


def finish_check(prop, rule, stats_list, t0, level='other', extra=None, assumptions=(), min_obl=1):
    """stats_list: [(label, Stats)]; writes evidence, prints verdict, exits"""
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    viol = []
    obl = proved = cells = traces = 0
    und = []
    funcs = set()
    internal = []
    for lab, st in stats_list:
        obl += st.obl
        proved += st.proved
        cells += st.cells
        traces += st.traces
        funcs |= st.funcs
        for v in st.viol:
            v = dict(v)
            v['part'] = lab
            viol.append(v)
        und += ['%s: %s' % (lab, u) for u in st.undecided]
    internal = [u for u in und if 'INTERNAL' in u]
    known = [k for k in load_known() if k[0] == prop]
    fresh = []
    hitk = {}
    for v in viol:
        key = '%s|%s|%s|%s' % (v['part'], v['cell'], v['what'], v.get('where', [''])[0] if v.get('event') else '')
        for k in known:
            if re.search(k[2], key):
                hitk[k[1]] = k
                break
        else:
            fresh.append(v)
    for k in hitk.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    cov = {
        'explanation': rule,
        'obligations': obl, 'discharged': proved, 'partition_cells': cells, 'traces': traces,
        'undecided': len(und), 'undecided_examples': und[:12],
        'functions_analysed': len(funcs),
        'functions': sorted(set(re.sub(r'\(.*', '', demangle(f)) for f in list(funcs)[:400]))[:60],
        'parts': {lab: {'cells': st.cells, 'obligations': st.obl, 'proved': st.proved} for lab, st in stats_list},
    }
    if extra:
        cov.update(extra)
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
        'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
        'assumptions': list(assumptions),
    }
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s violated\nrule: %s\n\n' % (prop, rule))
            for v in fresh:
                f.write(json.dumps(v, indent=1) + '\n')
        for v in fresh[:3]:
            print('  [%s] %s: %s: got %s, want %s (inputs %s) via %s' % (v['part'], v['cell'], v['what'], v.get('got'), v.get('want'), v.get('inputs'), '; '.join(v.get('where', [])[:3])))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    if internal and not proved:
        print('analysis broken: ' + internal[0])
        sys.exit(3)
    if obl < min_obl or proved == 0:
        print('analysis broken: only %d obligations, %d proved (expected at least %d)' % (obl, proved, min_obl))
        sys.exit(3)
    print('%s: %d obligations over %d cells / %d traces, %d proved, %d undecided, %.1fs' % (prop, obl, cells, traces, proved, len(und), time.time() - t0))
    for u in und[:8]:
        print('  undecided ' + u[:600])
    sys.exit(0)


class TmpDir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vpositll')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def main(prop, fn):
    """fn(tmp) -> kwargs of finish_check (rule, stats_list, ...)"""
    t0 = time.time()
    try:
        with TmpDir() as tmp:
            kw = fn(tmp)
    except AnalysisBroken as e:
        print('analysis broken: %s' % e)
        sys.exit(3)
    finish_check(prop, t0=t0, **kw)
