"""C22 (and the Python part of C18): wicked/utils.py, executed symbolically against stubs of the extension module."""
import sys, os, types, builtins, re, itertools, collections, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dse
from dse import Engine, Concrete, SInt, Stop
REPO = os.environ.get('SX_REPO', '/repo')
LABELS = 'ova'


def load(g, stub):
    """the module under test, with range() defined on symbolic integers"""
    src = open(REPO + '/wicked/utils.py').read()
    b = dict(vars(builtins)); real = range

    def srange(*a):
        if any(isinstance(x, SInt) for x in a): a = [int(x) for x in a]
        r = real(*a)
        if hasattr(stub, '_position') and len(r) == getattr(stub, '_n', -1) and r.start == 0 and r.step == 1:
            return [stub._position(i) for i in r]
        return r
    b['range'] = srange
    ns = {'__builtins__': b, '__name__': 'wicked.utils'}
    old = sys.modules.get('wicked'); sys.modules['wicked'] = stub
    try: exec(compile(src, 'utils.py', 'exec'), ns)
    finally:
        if old is not None: sys.modules['wicked'] = old
    sys.modules['wicked'] = stub  # functions import lazily
    return ns


class Sum(collections.Counter):  # a formal sum
    def __iadd__(self, o):
        for k, v in o.items(): self[k] += v
        return self
    def __add__(self, o):
        r = Sum(self); r += o; return r


def registry(g, stub, n):
    """n spaces whose positions are an arbitrary permutation"""
    pos = [g.var('position of ' + LABELS[i], 0, n - 1) for i in range(n)]
    for i in range(n):
        for j in range(i): g.assume(pos[i] != pos[j] if isinstance(pos[i], int) else pos[i].e != pos[j].e)

    def label(p):
        for i in range(n):
            if pos[i] is p: return LABELS[i]
        for i in range(n):
            if pos[i] == p: return LABELS[i]
        raise Stop()
    stub._n = n; stub._position = lambda i: pos[i]
    osi = types.SimpleNamespace(num_spaces=lambda: n, label=label, indices=lambda p: [], to_dict=lambda: {LABELS[i]: [] for i in range(n)})
    stub.osi = lambda: osi; stub.num_spaces = lambda: n
    return {LABELS[i]: pos[i] for i in range(n)}


def word(g, name, n, most):
    """any string of distinct labels"""
    k = g.pick(name + ' length', 1, min(n, most)); left = list(LABELS[:n]); w = ''
    for i in range(k): w += left.pop(g.pick('%s letter %d' % (name, i), 0, len(left) - 1))
    return w


def gen_op(spaces, maxrank, maxword):
    def body(g):
        stub = types.ModuleType('wicked'); got = Sum(); n = spaces; labels = []

        def op(label, components, unique=False):
            labels.append(label); r = Sum()
            for c in components:
                e = re.findall(r'[a-zA-Z][+^]?', c)
                k = (tuple(sorted(x[0] for x in e if len(x) > 1)), tuple(sorted(x for x in e if len(x) == 1)))
                if unique and r[k]: continue
                r[k] += 1
            return r
        stub.op = op; m = registry(g, stub, n); u = load(g, stub)
        rank = g.pick('rank', 1, maxrank); cre = word(g, 'creation', n, maxword); ann = word(g, 'annihilation', n, maxword); diag = bool(g.pick('diagonal', 0, 1))
        r = u['gen_op']('T', rank, cre, ann, diagonal=diag) if not diag else u['gen_op']('T', rank, cre, ann)
        want = {(tuple(sorted(a)), tuple(sorted(b))) for a in itertools.combinations_with_replacement(sorted(cre), rank) for b in itertools.combinations_with_replacement(sorted(ann), rank)}
        if not diag: want = {(a, b) for a, b in want if a != b}
        g.claim(set(labels) <= {'T'}, 'wrong operator label')
        have = {k for k, v in r.items() if v}
        g.claim(not (want - have), 'a block is missing')
        g.claim(not (have - want), 'a block that does not belong to the operator')
        g.claim(all(r[k] == 1 for k in have), 'a block occurs more than once')
        g.reached('diagonal' if diag else 'off-diagonal')
    return body


def text(lines):
    def body(g):
        stub = types.ModuleType('wicked'); calls = []

        class Expression(Sum): pass

        def expression(s, symmetry=None):
            g.claim('\n' not in s, 'several lines read as one term'); r = Expression()
            if s.strip(): r[s.strip()] += 1
            return r
        stub.Expression = Expression; stub.expression = expression; u = load(g, stub)
        n = g.pick('lines', 1, lines); t = []; want = collections.Counter()
        for i in range(n):
            k = g.pick('line %d' % i, 0, 3); s = ['', '  ', 'T^{o0}_{v0}', '-1/2 f^{o0}_{o1}'][k]; t.append(s)
            if s.strip(): want[s] += 1
        r = u['string_to_expr']('\n'.join(t))
        have = collections.Counter({k: v for k, v in r.items() if v})
        g.claim(not (want - have), 'the term of a line is missing'); g.claim(not (have - want), 'the term of a line was added more than once')
        g.reached('text')
    return body


class Ix:
    def __init__(self, s, p): self.s = s; self.p = p
    def space(self): return self.s
    def pos(self): return self.p
    def __str__(self): return LABELS[int(self.s)] + str(int(self.p))
    __repr__ = __str__
    def __eq__(self, o): return (int(self.s), int(self.p)) == (int(o.s), int(o.p))
    def __lt__(self, o): return (int(self.s), int(self.p)) < (int(o.s), int(o.p))
    __hash__ = None
    def latex(self): return self.__str__()


class Te:
    def __init__(self, l, up, lo): self.l = l; self.u = up; self.w = lo
    def label(self): return self.l
    def upper(self): return list(self.u)
    def lower(self): return list(self.w)


def einsum(maxidx, maxpos, maxt):
    NAMES = {'o': ['i', 'j'], 'v': ['a', 'b', 'c']}

    def body(g):
        stub = types.ModuleType('wicked')
        osi = types.SimpleNamespace(num_spaces=lambda: 2, label=lambda p: LABELS[int(p)], indices=lambda p: list(NAMES[LABELS[int(p)]]), to_dict=lambda: {k: list(v) for k, v in NAMES.items()})
        stub.osi = lambda: osi; u = load(g, stub); left = [maxidx]

        def ten(name, label):
            n = g.pick(name + ' upper', 0, min(2, left[0])); left[0] -= n; m = g.pick(name + ' lower', 0, min(2, left[0])); left[0] -= m
            ix = [Ix(g.var('%s index %d space' % (name, i), 0, 1), g.var('%s index %d number' % (name, i), 0, maxpos)) for i in range(n + m)]
            return Te(label, ix[:n], ix[n:])
        l = ten('result', 'R'); nt = g.pick('tensors', 1, maxt); r = [ten('tensor %d' % i, ['T2', 'f', 'T2'][i]) for i in range(nt)]
        f = [1.0, -0.5, 1 / 3, 1 / 40320][g.pick('factor', 0, 3) if left[0] == maxidx else 2]
        eq = types.SimpleNamespace(lhs=lambda: types.SimpleNamespace(tensors=lambda: [l]), rhs=lambda: types.SimpleNamespace(tensors=lambda: list(r)), rhs_factor=lambda: f)
        try: s = u['compile_einsum'](eq)
        except Stop: raise
        except IndexError: s = None  # out of letters: refused
        idx = lambda t: t.u + t.w
        every = [i for t in r + [l] for i in idx(t)]
        if s is None:
            d = {str(i) for i in every}
            g.claim(any(sum(k[0] == q for k in d) > len(NAMES[q]) for q in 'ov'), 'a valid equation was refused'); g.reached('refused'); return
        m = re.fullmatch(r"\s*(\w+)\s*\+=\s*([-+0-9.eE]+)\s*\*\s*np\.einsum\(\s*['\"]([a-zA-Z,]*)->([a-zA-Z]*)['\"]\s*,(.*)\)\s*", s)
        g.claim(m is not None, 'not an assignment of np.einsum')
        blk = lambda t: ''.join(LABELS[int(i.s)] for i in idx(t))
        g.claim(m.group(1).replace('_', '') == 'R' + blk(l), 'wrong left-hand side')
        g.claim(float(m.group(2)) == f, 'wrong factor')
        sub = m.group(3).split(',')
        g.claim([len(x) for x in sub] == [len(idx(t)) for t in r], 'wrong number of subscripts'); g.claim(len(m.group(4)) == len(idx(l)), 'wrong number of output subscripts')
        args = [x.strip() for x in m.group(5).split(',')]
        g.claim(args[:nt] == ['%s["%s"]' % (t.l, blk(t)) for t in r], 'wrong operands')
        letters = ''.join(sub) + m.group(4)
        for i in range(len(every)):
            for j in range(i):
                g.claim((every[i] == every[j]) == (letters[i] == letters[j]), 'letters do not match the indices')
        g.reached('scalar' if not idx(l) else 'tensor')
    return body


JOBS = {  # name: (property, quick, thorough, bound, labels)
    'genop': ('C22', lambda: gen_op(3, 2, 2), lambda: gen_op(3, 3, 3), 'rank <=2, three spaces registered in any order, strings of <=2 distinct labels', 'rank <=3, strings of <=3 distinct labels', ['diagonal', 'off-diagonal']),
    'genop_rank': ('C22', lambda: gen_op(2, 4, 2), lambda: gen_op(3, 4, 2), 'rank <=4, two spaces registered in either order', 'rank <=4, three spaces, strings of <=2 distinct labels', ['diagonal', 'off-diagonal']),
    'text': ('C22', lambda: text(4), lambda: text(6), '<=4 lines', '<=6 lines', ['text']),
    'einsum': ('C18', lambda: einsum(3, 2, 1), lambda: einsum(4, 2, 2), 'one tensor, <=3 indices in total, numbers 0..2', '<=2 tensors, <=4 indices in total', ['scalar', 'tensor', 'refused']),
}


FUNCS = {'genop': ['gen_op'], 'genop_rank': ['gen_op'], 'text': ['string_to_expr'], 'einsum': ['compile_einsum']}


def replay(body, model):
    """None, or what fails when the real function runs on these values"""
    c = Concrete(model)
    try: body()(c)
    except Stop: pass
    except Exception as ex: return 'raised %s: %s' % (type(ex).__name__, ex)
    return c.failed


def main(prop, tier, seconds):
    out = []
    for name, (p, q, t, bq, bt, labels) in JOBS.items():
        if p != prop: continue
        g = Engine(seconds); t0 = time.time(); g.run((q if tier == 'quick' else t)())
        body = (q if tier == 'quick' else t)
        viol = [(msg, model, replay(body, model)) for msg, model in g.violations[:20]]
        wit = [] if g.violations else [replay(body, m) for m in g.witnesses]
        viol = [(m, mod, r is not None and (r == m or r.startswith('raised'))) for m, mod, r in viol]
        viol += [('on a witness: ' + r, g.witnesses[i], True) for i, r in enumerate(wit) if r is not None]
        out.append(dict(job=name, bound=bq if tier == 'quick' else bt, paths=g.paths, queries=g.queries, sat=g.sat, unsat=g.unsat, solver_s=round(g.ztime, 2), asserts=g.asserts, incomplete=g.incomplete, unknown=g.unknown, reach=g.reach,
                        missing=[l for l in labels if l not in g.reach] if not g.violations else [], violations=[dict(msg=m, model=x, confirmed=c) for m, x, c in viol], replayed=sum(r is None for r in wit), samples=g.witnesses[:3],
                        functions=['utils.py: ' + x for x in FUNCS[name]], wall_s=round(time.time() - t0, 2)))
    return out


if __name__ == '__main__':
    print(json.dumps(main(sys.argv[1], sys.argv[2], float(sys.argv[3]))))
