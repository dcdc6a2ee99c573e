"""Check context: obligations, three-valued verdicts, evidence, known findings."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from . import terms as tm
from .terms import *
from . import linear, witness
from .program import Program, AnalysisBroken
from .interp import Interp, OPAQUE, Budget, AlwaysRaises

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('OMGCHECK_REPO', '/repo')

HOLDS, VIOLATED, UNDECIDED = 'holds', 'violated', 'undecided'


STEP_LIMIT, TOTAL_LIMIT = 45., 450.       # seconds of processor time: one step, one check


class OutOfTime(BaseException):
    pass


def out_of_time(*a):
    raise OutOfTime()


class Ob(object):
    def __init__(self, key, status, msg, where='', value=''):
        self.key, self.status, self.msg, self.where, self.value = key, status, msg, where, value

    @property
    def fid(self):
        return '%s#%s' % (self.key, hashlib.blake2b(self.value.encode(), digest_size=5).hexdigest()) if self.value else self.key


# ------------------------------------------------------------- standard models

def m_derivative(I, o, args, kw):
    k = args[0] if args else kw.get('o', ONE)

    def f(x, k):
        if x.op == 'D':
            return T('D', x.args[0], add(x.args[1], k))
        if numval(k) == 0:
            return x
        return T('D', x, k)
    return lift(f, o, k)


STD_MODELS = {'.derivative': m_derivative}

PURE_FUNCS = set('''evalspl evalspline running_integral definite_integral sample_splines concat_splines integrate_once
 shiftoverknot shift_knot1_fwd shift_knot1_bwd shift_spline extrapolate knot_insertion_T extrapolate_T
 crop_spline get_interval_T shiftfirstknot_T shiftoverknot_T shift_knot1_fwd_mx'''.split())


def std_policy(events=(), pure=(), inline=()):
    ev, pu, inl = set(events), set(pure), set(inline)

    def pol(q):
        last = q.split('.')[-1]
        two = '.'.join(q.split('.')[-2:])
        if last in inl or two in inl:
            return 'inline'
        if last in ev or two in ev:
            return 'event'
        if last in pu or two in pu:
            return 'pure'
        if q.startswith('spec.'):
            return 'inline'
        if '.OptiChild.' in q or '.OptiFather.' in q:
            return 'event'
        if '.PlotLayer.' in q:
            return 'pure'
        if last in ('BSpline', 'BSplineBasis') or '.BSpline.' in q or '.BSplineBasis.' in q:
            return 'pure'
        if last in PURE_FUNCS and 'spline' in q:
            return 'pure'
        return 'inline'
    return pol


# operations the analyser understands; a value built only from these (or from what the specification
# itself mentions) is *decided*: if it differs from the specification it is a violation
KNOWN_OPS = set('''poly pos str none bool sym attr getitem ite lt0 eq0 eq truth isnone in is isinst hasattr any list tuple vec clist one opt comp
 splat kv dict dcomp D sin cos tan arctan arctan2 sqrt norm abs max min floor ceil int round mod len idx count sumover ext class inf
 concat str_of slice keyof reversed zip cat part dot new raw exp log pow kwarg fmt sign dictitems dictkeys dictvalues func
 linspace where colstack bound missing repeat getelem scalar evalspl float sum module reshape'''.split())

# declarations of the modelling layer are atoms: their result is a fresh quantity identified by its name
KNOWN_OPS |= set('mcall:' + n for n in '''define_spline_variable define_variable define_parameter define_symbol define_spline_symbol
 define_substitute define_spline_parameter'''.split())

NAMED = ('mcall', 'fcall', 'call', 'new')


def heads(t):
    out = set()
    for x in tm.subterms(t):
        if x.op in ('mcall', 'fcall'):
            out.add(x.op + ':' + (x.args[0].args[0] if x.args[0].op == 'str' else '?'))
        else:
            out.add(x.op)
    return out


def decided(actual, expected=()):
    """is every operation of `actual` understood?  (returns the list of those that are not)"""
    allowed = set(KNOWN_OPS)
    for e in expected:
        allowed |= heads(e)
    h = heads(actual)
    bad = [x for x in h if x not in allowed or x in OPAQUE]
    return sorted(bad)


def clear_denominators(p):
    """numerator of a sum of Laurent monomials over polynomial atoms"""
    for _ in range(8):
        den = None
        for m, c in tm._pd(p).items():
            for a, e in m:
                if e < 0:
                    den = (a, -e)
                    break
            if den:
                break
        if den is None:
            return p
        a, e = den
        # multiply by a^e; poly atoms are re-expanded by mul
        d = {}
        for m, c in tm._pd(p).items():
            dm = dict(m)
            dm[a] = dm.get(a, 0) + e
            mm = tuple(sorted(((x, k) for x, k in dm.items() if k != 0), key=lambda q: q[0].dig))
            d[mm] = d.get(mm, 0) + c
        p = tm._expand_atoms(d)
    return p


MINMAX = ('min', 'max', 'abs')
_same_memo = {}


def same_leaf(a, b):
    return False if a.op in MINMAX or b.op in MINMAX else same(a, b)


def same(a, b):
    if a is b:
        return True
    if not isinstance(a, Term) or not isinstance(b, Term):
        return a == b
    if a.op == 'ite' or b.op == 'ite' or a.op in MINMAX or b.op in MINMAX:
        k = (a, b)
        r = _same_memo.get(k)
        if r is None:
            if a.op == 'ite' or b.op == 'ite':
                r = lift(lambda x, y: TRUE if same(x, y) else FALSE, a, b)
            else:
                r = TRUE if a.op == b.op and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args)) else FALSE
            r = _same_memo[k] = r is TRUE or linear.equivalent(a, b, same_leaf)
        return r
    if a.op in ('vec', 'list', 'tuple') and b.op in ('vec', 'list', 'tuple'):
        return len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    if a.op in ('poly', 'sym', 'attr', 'getitem', 'D') or b.op == 'poly':
        try:
            d = sub(a, b)
            return clear_denominators(d) is ZERO
        except Exception:
            return False
    if a.op == 'dict' and b.op == 'dict':
        da = {x.args[0]: x.args[1] for x in a.args[1:] if x.op == 'kv'}
        db = {x.args[0]: x.args[1] for x in b.args[1:] if x.op == 'kv'}
        if set(da) == set(db) and same(a.args[0], b.args[0]) and \
                [x for x in a.args[1:] if x.op != 'kv'] == [x for x in b.args[1:] if x.op != 'kv']:
            return all(same(da[k], db[k]) for k in da)
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('vec', 'list', 'tuple', 'dict') and len(a.args) > 0:
        return all(same(x, y) for x, y in zip(a.args, b.args))
    return False


class Ctx(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []
        self.depth = 0
        self.functions = set()
        self.spec_dir = os.path.join(VERIF, 'spec')
        extra = [('spec.' + f[:-3], os.path.join(self.spec_dir, f)) for f in sorted(os.listdir(self.spec_dir)) if f.endswith('.py')]
        import warnings
        warnings.simplefilter('ignore')
        self.prog = Program(REPO, 'omgtools', extra)
        self.notes = []
        self.rules = []
        self.extra_cov = {}

    # -- trial runs of a rule
    def shadow(self):
        import copy
        c = copy.copy(self)
        c.obs = []
        return c

    def clean(self):
        return bool(self.obs) and all(o.status == HOLDS for o in self.obs)

    def violated(self):
        return [o for o in self.obs if o.status == VIOLATED]

    def adopt(self, other):
        self.obs += other.obs

    # -- results
    def ok(self, key, msg='', where=''):
        self.obs.append(Ob(key, HOLDS, msg, where))

    def bad(self, key, msg, where='', value=''):
        self.obs.append(Ob(key, VIOLATED, msg, where, value))

    def unknown(self, key, msg, where=''):
        self.obs.append(Ob(key, UNDECIDED, msg, where))

    def guard(self, key, f, *a, **k):
        """an analysis step; a failure of the analyser itself leaves the obligation undecided"""
        outer = self.depth == 0
        if outer:
            left = TOTAL_LIMIT - time.process_time()
            if left < 1:
                self.unknown(key, 'analysis out of time')
                return None
            signal.signal(signal.SIGVTALRM, out_of_time)
            signal.setitimer(signal.ITIMER_VIRTUAL, min(left, STEP_LIMIT))
        self.depth += 1
        try:
            return f(*a, **k)
        except OutOfTime:
            if not outer:
                raise
            self.unknown(key, 'analysis out of time')
            return None
        except AnalysisBroken:
            raise
        except (Budget, RecursionError, AlwaysRaises) as e:
            self.unknown(key, 'analysis gave up: %s' % type(e).__name__)
        except Exception as e:
            self.unknown(key, 'analysis failed: %s' % traceback.format_exc().strip().splitlines()[-1] + ' @ ' + '; '.join(
                '%s:%s' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(sys.exc_info()[2])[-3:]))
            if os.environ.get('OMGCHECK_DEBUG'):
                traceback.print_exc()
        finally:
            self.depth -= 1
            if outer:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return None

    def interp(self, events=(), pure=(), inline=(), models=None, policy=None, attr_types=None, **k):
        m = dict(STD_MODELS)
        m.update(models or {})
        return Interp(self.prog, policy or std_policy(events, pure, inline), m, attr_types, **k)

    def loc(self, cls, method):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        f = c.find(method)
        if f is None:
            raise AnalysisBroken('%s.%s not found' % (c.name, method))
        return '%s:%d %s.%s' % (os.path.relpath(f[0].module.path, REPO), f[1].lineno, f[0].name, method)

    # -- comparison of one value with the specified one
    def equal(self, key, actual, expected, what, where=''):
        if same(actual, expected):
            self.ok(key, what, where)
            return True
        und = decided(actual, [expected])
        if und:
            self.unknown(key, '%s: value not resolved (%s)' % (what, ', '.join(und)), where)
            return None
        if witness.compare(actual, expected) == 'agree':
            self.unknown(key, '%s: written differently, no point found where the value differs' % what, where)
            return None
        self.bad(key, '%s: is `%s`, specified `%s`' % (what, short(actual, 300), short(expected, 300)), where, actual.dig)
        return False

    # -- finish
    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        out = {}
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('finding:'):
                    parts = l.split(None, 3)
                    d = dict(x.split('=', 1) for x in parts[1:3])
                    if d.get('property') == self.pid:
                        out[d['key']] = parts[3] if len(parts) > 3 else ''
        return out

    def finish(self, floor):
        known = self.known()
        viol = [o for o in self.obs if o.status == VIOLATED]
        und = [o for o in self.obs if o.status == UNDECIDED]
        hold = [o for o in self.obs if o.status == HOLDS]
        if len(self.obs) < floor:
            raise AnalysisBroken('%s: only %d rule instances, %d confirmed by hand' % (self.pid, len(self.obs), floor))
        if not hold and not viol:
            raise AnalysisBroken('%s: no obligation could be decided' % self.pid)
        listed = [o for o in viol if o.fid in known]
        new = [o for o in viol if o.fid not in known]
        wall = time.time() - self.t0
        cov = {'explanation': 'static analysis of /repo source; every obligation is a rule instance at a named construct. '
                              + ' '.join(self.rules),
               'obligations': len(self.obs), 'discharged': len(hold), 'undecided': len(und),
               'functions_analysed': sorted(self.functions), 'functions_count': len(self.functions),
               'rules': self.rules,
               'undecided_list': ['%s: %s' % (o.key, o.msg[:200]) for o in und][:60],
               'samples': ['%s [%s] %s' % (o.key, o.where, o.msg[:160]) for o in hold[:12]]}
        cov.update(self.extra_cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 3), 'violations': len(new)}
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if os.environ.get('OMGCHECK_VERBOSE'):
            for o in self.obs:
                if o.status != HOLDS or os.environ['OMGCHECK_VERBOSE'] == '2':
                    print('%-10s %s  %s  [%s]' % (o.status, o.fid, o.msg[:400], o.where))
        for o in listed:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[o.fid] or o.msg[:200], o.fid))
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%d listed), %.1fs' % (
            self.pid, len(self.obs), len(hold), len(und), len(viol), len(listed), wall))
        if new:
            rd = os.path.join(ed, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'command': 'cd /verif && python3 check.py %s' % self.pid,
                           'violations': [{'rule_instance': o.key, 'id': o.fid, 'where': o.where, 'message': o.msg} for o in new]}, f, indent=1)
            for o in new:
                print('  %s: %s\n      at %s' % (o.fid, o.msg[:700], o.where))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


ASSUMPTIONS = [
    'the analysed source is what runs: no monkey patching, no attributes injected from outside the package',
    'arithmetic is exact (rounding of floating point operations is not modelled)',
    'library functions (numpy, scipy, casadi) behave as documented; unknown library calls are uninterpreted and equal for equal arguments',
    'distinct symbolic objects and container keys do not alias unless the source makes them the same term',
    'an obligation whose value the analyser cannot resolve is reported as undecided in the evidence and neither passes nor raises an alarm',
]
