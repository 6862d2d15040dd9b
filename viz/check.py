#!/usr/bin/env python3
"""C22: explicit enumeration of results-directories of the balancing, each given to the real
visualizer (/repo/scripts/balancing/visualizer), whose drawing calls are recorded by stub/matplotlib.
   check.py quick|thorough [--case family:index]"""
import contextlib, io, itertools, json, math, multiprocessing, os, re, runpy, shutil, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
TOOL = os.path.join(REPO, 'scripts', 'balancing', 'visualizer')
STUB = os.path.join(HERE, 'stub')
SCRATCH = os.environ['MC_SCRATCH']
OUT = os.environ.get('MC_OUT', '/verif/out')
sys.dont_write_bytecode = True
sys.path.insert(0, STUB)
import numpy as np
import matplotlib.pyplot as plt

TIER = sys.argv[1] if len(sys.argv) > 1 else 'quick'
ONLY = sys.argv[sys.argv.index('--case') + 1].rsplit(':', 1) if '--case' in sys.argv else None


class Violated(Exception):
    pass


def need(ok, *what):
    if not ok:
        raise Violated(' '.join(str(w) for w in what))


def digits(i, *radices):
    out = []
    for r in radices:
        out.append(i % r)
        i //= r
    return out


# ---------------------------------------------------------------- results-directories

EDGE_COLUMNS = ['edge-id', 'src-lat', 'src-lon', 'dst-lat', 'dst-lon', 'kilometers', 'lane-count']
LOAD_COLUMNS = ['edge-id', 'num_routes']


def edge(id, i=0, lanes=1.0, lats=None, lons=None):
    lats = lats or (48.5 + i, 48.75 + 1.25 * i)
    lons = lons or (9.0 - 2 * i, 9.5 + 3 * i)
    return dict(zip(EDGE_COLUMNS, [id, lats[0], lons[0], lats[1], lons[1], 0.5 + i, lanes]))


class History:
    """edges, and their workloads in each iteration"""

    def __init__(self, edges, loads, edge_rows=None, load_rows=None, edge_columns=EDGE_COLUMNS, load_columns=LOAD_COLUMNS):
        self.edges, self.loads = edges, loads
        ids = range(len(edges))
        self.edge_rows = edge_rows or [ids] * len(loads)
        self.load_rows = load_rows or [ids] * len(loads)
        self.edge_columns, self.load_columns = edge_columns, load_columns

    def files(self):
        f = {}
        for i, loads in enumerate(self.loads):
            rows = [' '.join(self.edge_columns)]
            for k in self.edge_rows[i]:
                rows.append(' '.join(str(self.edges[k].get(c, 'x')) for c in self.edge_columns))
            f[f'{i}/stats/edges-info.csv'] = '\n'.join(rows) + '\n'
            rows = [' '.join(self.load_columns)]
            for k in self.load_rows[i]:
                e = {'edge-id': self.edges[k]['edge-id'], 'num_routes': loads[k]}
                rows.append(' '.join(str(e.get(c, 'x')) for c in self.load_columns))
            f[f'{i}/stats/abs_workloads.csv'] = '\n'.join(rows) + '\n'
        return f

    def __str__(self):
        return f'workloads {self.loads} of edges {[tuple(e.values()) for e in self.edges]}, rows {[list(r) for r in self.edge_rows]}, {[list(r) for r in self.load_rows]}'


def put(files, root):
    shutil.rmtree(root, ignore_errors=True)
    for name, text in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)


def tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            with open(os.path.join(d, n)) as f:
                out[os.path.relpath(os.path.join(d, n), root)] = f.read()
    return out


def show(root, style):
    """the real visualizer; returns (what it told, the figures it saved)"""
    plt.SAVED.clear()
    plt.close()
    argv, out = sys.argv, io.StringIO()
    sys.argv = ['visualizer', '--results-dir', root] + (['--style', style] if style else [])
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(TOOL, run_name='__main__')
    finally:
        sys.argv = argv
    return out.getvalue(), {os.path.relpath(k, root): v for k, v in plt.SAVED.items()}


# ---------------------------------------------------------------- what is expected

def near(a, b):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1.0 + np.abs(b))))


def only(events, kind, n=1):
    e = [v for k, v in events if k == kind]
    need(len(e) == n, f'{len(e)} {kind}s are drawn')
    return e[0] if n == 1 else e


def points(events, mids, values, by):
    """every edge once, at its middle, with its value, the most important ones on top"""
    s = only(events, 'scatter')
    want = sorted((round(lon, 9), round(lat, 9), v) for (lat, lon), v in zip(mids, values))
    got = sorted((round(x, 9), round(y, 9), c) for x, y, c in zip(s['x'], s['y'], s['c']))
    need(near(got, want), f'points {got} are drawn instead of {want}')
    order = [by(c) for c in s['c']]
    need(order == sorted(order), f'{s["c"]} are drawn in this order')
    lats = [lat for lat, _ in mids]
    center = (min(lats) + max(lats)) / 2.0
    a = only(events, 'aspect')['aspect']
    need(near(a, 1.0 / math.cos(math.radians(center))), f'aspect {a} at {center}')
    return s


def told_range(events, values):
    t = only(events, 'title')['text']
    m = re.search(r'\[([^\[\],]+), ([^\[\],]+)\]\s*$', t)
    need(m, 'no range in title', t)
    need(near([float(m.group(1)), float(m.group(2))], [min(values), max(values)]), t, 'for', values)


def boundaries(s, want):
    got = getattr(s['norm'], 'boundaries', None)
    need(got is not None and near(got, want), f'boundaries {got} instead of {want}')


def judge(h, style, out, figures):
    order = sorted(range(len(h.edges)), key=lambda k: h.edges[k]['edge-id'])
    edges = [h.edges[k] for k in order]
    loads = [[l[k] for k in order] for l in h.loads]
    mids = [((e['src-lat'] + e['dst-lat']) / 2.0, (e['src-lon'] + e['dst-lon']) / 2.0) for e in edges]
    n = len(edges)
    top = max(max(l) for l in loads)

    want = {f'{f}.png' for f in ('sorted_workloads', 'workload-boxplots', 'max_workloads', 'num_unique_edges')}
    for i in range(len(loads)):
        want |= {f'{i}/stats/{f}.png' for f in ('workloads', 'workload-quantiles', 'workloads_hist', 'lane-count_to_workload')}
        if i > 0:
            want |= {f'{i}/stats/{f}.png' for f in ('delta_workloads', 'delta_workloads-quantiles')}
    need(set(figures) == want, f'figures are {sorted(figures)} instead of {sorted(want)}')

    at = None

    def fig(name):
        nonlocal at
        at = name
        return figures[name]

    try:
        # over all iterations
        lines = [p for k, p in fig('sorted_workloads.png') if k == 'plot' and len(p['y'])]
        expected = []
        for l in loads:
            nz = sorted(v for v in l if v > 0)
            if nz:
                expected += [(list(range(len(nz))), nz), ([len(nz) - 1], [nz[-1]])]
        need(len(lines) == len(expected) and all(near(p['x'], x) and near(p['y'], y) for p, (x, y) in zip(lines, expected)),
             f'{[(list(p["x"]), list(p["y"])) for p in lines]} instead of {expected}')

        boxes = [(list(p['x']), sorted(p['y'])) for k, p in fig('workload-boxplots.png') if k == 'box']
        expected = [([i], sorted(v for v in l if v > 0)) for i, l in enumerate(loads)]
        need([b for b in boxes if b[1]] == [b for b in expected if b[1]], f'boxes {boxes} instead of {expected}')

        lines = [(list(p['x']), list(p['y'])) for k, p in fig('max_workloads.png') if k == 'plot' and len(p['y'])]
        deltas = [[b - a for a, b in zip(x, y)] for x, y in zip(loads, loads[1:])]
        between = [i + 0.5 for i in range(len(deltas))]
        expected = [(list(range(len(loads))), [max(l) for l in loads])]
        if deltas:
            expected += [(between, [max(d) for d in deltas]), (between, [min(d) for d in deltas])]
        need(sorted(lines) == sorted(expected), f'{lines} instead of {expected}')

        lines = [(list(p['x']), list(p['y'])) for k, p in fig('num_unique_edges.png') if k == 'plot']
        expected = [(list(range(len(loads))), [sum(1 for v in l if v > 0) for l in loads])]
        need(lines == expected, f'{lines} instead of {expected}')

        # each iteration
        for i, l in enumerate(loads):
            ev = fig(f'{i}/stats/workloads.png')
            s = points(ev, mids, l, lambda c: c)
            told_range(ev, l)
            m = s['mapped']
            need(np.all((m >= -1e-9) & (m <= 1.0 + 1e-9)), f'colours {m} of {s["c"]}')
            for a in range(n - 1):
                same = s['c'][a] == s['c'][a + 1]
                need((abs(m[a + 1] - m[a]) < 1e-9) if same else (m[a + 1] > m[a]), f'colours {m} of {s["c"]}')
            need(all((abs(v - 1.0) < 1e-9) == (c == top) for v, c in zip(m, s['c'])), f'colours {m} of {s["c"]}, whose maximum is {top}')

            ev = fig(f'{i}/stats/workload-quantiles.png')
            s = points(ev, mids, l, lambda c: c)
            told_range(ev, l)
            low, high = min(l), sorted(l)[int(0.95 * n)]
            boundaries(s, ([0.0] if low > 0 else []) + [low, high] + ([top] if high < top else []))

            ev = fig(f'{i}/stats/workloads_hist.png')
            y = only(ev, 'hist')
            need(sorted(y['y']) == sorted(v for v in l if v > 0), f'histogram of {y["y"]} instead of {l}')

            ev = fig(f'{i}/stats/lane-count_to_workload.png')
            boxes = sorted((list(p['x']), sorted(p['y'])) for k, p in ev if k == 'box' and len(p['y']))
            expected = {}
            for e, v in zip(edges, l):
                if v > 0:
                    expected.setdefault(e['lane-count'], []).append(v)
            expected = sorted(([int(k)], sorted(v)) for k, v in expected.items())
            need(boxes == expected, f'boxes {boxes} instead of {expected}')

            if i > 0:
                d = deltas[i - 1]
                ev = fig(f'{i}/stats/delta_workloads.png')
                s = points(ev, mids, d, abs)
                told_range(ev, d)
                m = s['mapped']
                need(np.all((m >= -1e-9) & (m <= 1.0 + 1e-9)), f'colours {m} of {s["c"]}')
                if any(d):
                    for v, c in zip(m, s['c']):
                        need(v < 0.5 if c < 0 else v > 0.5 if c > 0 else abs(v - 0.5) < 1e-9, f'colours {m} of {s["c"]}')
                    by = sorted(zip(s['c'], m))
                    for a, b in zip(by, by[1:]):
                        need(a[1] < b[1] or a[0] == b[0], f'colours {m} of {s["c"]}')
                    for v, c in zip(m, s['c']):
                        if c == min(d) < 0:
                            need(abs(v) < 1e-9 or style == 'light' or max(d) <= 0, f'colours {m} of {s["c"]}')
                        if c == max(d) > 0:
                            need(abs(v - 1.0) < 1e-9, f'colours {m} of {s["c"]}')

                ev = fig(f'{i}/stats/delta_workloads-quantiles.png')
                s = points(ev, mids, d, lambda c: c)
                told_range(ev, d)
                d = sorted(d)
                boundaries(s, [d[0], d[int(0.05 * n)], d[int(0.95 * n)], d[-1]])
    except Violated as e:
        raise Violated(f'{at}: {e}')

    # told
    for key, of in (('mean', np.mean), ('std', np.std), ('min', min), ('max', max)):
        got = [float(v) for v in re.findall(rf'^\s*{key}=(\S+)$', out, re.M)]
        need(near(got, [of(l) for l in loads]), f'{key}: {got} is told for {loads}')


def case(h, style, extra=None):
    """one history; returns transitions, outcome, sample"""
    root = f'{SCRATCH}/{os.getpid()}/results'
    files = h.files()
    files.update(extra or {})
    put(files, root)
    try:
        out, figures = show(root, style)
    except Exception:
        raise Violated(f'{h}, style {style}: {traceback.format_exc(limit=-3)}')
    try:
        judge(h, style, out, figures)
        after = tree(root)
        for name in figures:
            after.pop(name, None)
        need(after == files, f'files {sorted(after)} instead of {sorted(files)}, or changed')
    except Violated as e:
        raise Violated(f'{h}, style {style}: {e}')
    top = max(max(l) for l in h.loads)
    outcome = tuple(sorted((k, tuple(tuple(np.round(v['mapped'], 6)) for kind, v in e if kind == 'scatter')) for k, e in figures.items()))
    return len(h.loads), (top, outcome), f'{h}, {style}: {len(figures)} figures'


STYLES = ['light', 'dark']


# ---------------------------------------------------------------- families

FAMILIES = []


def family(name, rule, n, f):
    FAMILIES.append((name, rule, n, f))


def grid(n, iterations, values):
    ids = [3, 20, 100, 7]

    def f(idx):
        style, rest = idx % 2, idx // 2
        v = digits(rest, *([len(values)] * (n * iterations)))
        loads = [[values[v[i * n + k]] for k in range(n)] for i in range(iterations)]
        return case(History([edge(ids[k], k) for k in range(n)], loads), STYLES[style])
    family(f'workloads-{n}x{iterations}-{len(values)}', f'all workloads {values} of {n} edges in {iterations} iterations, light and dark',
           2 * len(values) ** (n * iterations), f)


grid(1, 1, [0, 1, 2, 50])
grid(1, 2, [0, 1, 2, 50])
grid(1, 4, [0, 1, 3])
grid(2, 1, [0, 1, 2, 3, 9, 1000])
grid(2, 2, [0, 1, 2, 3, 9])
grid(2, 3, [0, 1, 4])
grid(3, 2, [0, 1, 4])
grid(3, 3, [0, 1, 4])
if TIER == 'thorough':
    grid(2, 3, [0, 1, 2, 9])
    grid(3, 2, [0, 1, 2, 9])
    grid(2, 4, [0, 1, 4])
    grid(4, 2, [0, 1, 4])

P3 = list(itertools.permutations(range(3)))


def rows(idx):
    ids, e, a, b = digits(idx, 6, 6, 6, 6)
    numbers = [2, 10, 3]
    h = History([edge(numbers[P3[ids][k]], k, lanes=k + 1) for k in range(3)], [[5, 0, 7], [1, 2, 7]], [P3[e], P3[(e + b) % 6]], [P3[a], P3[b]])
    return case(h, STYLES[(ids + e + a + b) % 2])


family('rows', 'three edges: all orders of ids, and of the rows of edges and of workloads in two iterations', 6 ** 4, rows)

P7 = list(itertools.permutations(EDGE_COLUMNS))
if TIER != 'thorough':
    P7 = P7[::7]


def columns(idx):
    o, more, swap = digits(idx, len(P7), 2, 2)
    cols = list(P7[o])
    if more:
        cols.insert(o % 8, 'route-count')
    load = LOAD_COLUMNS[::-1] if swap else LOAD_COLUMNS
    h = History([edge(4, 0, lanes=2), edge(1, 1)], [[3, 1], [0, 6]], edge_columns=cols, load_columns=load + ['other'] * more)
    return case(h, STYLES[o % 2])


family('columns', 'orders of the columns (thorough: all, quick: every seventh), with and without a column of something else', len(P7) * 4, columns)


def geometry(idx):
    v = [[-90.0, -3.25, 0.0, 47.5][d] for d in digits(idx, 4, 4, 4, 4)]
    o = [[-180.0, -0.5, 0.0, 179.0][(d * 3 + k) % 4] for k, d in enumerate(digits(idx, 4, 4, 4, 4))]
    l = digits(idx // 256, 3, 3)
    h = History([edge(0, 0, 1 + l[0], v[0:2], o[0:2]), edge(1, 1, 1 + l[1], v[2:4], o[2:4])], [[2, 1], [2, 3]])
    return case(h, STYLES[(idx + idx // 256) % 2])


family('geometry', 'two edges with all ends and lane-counts of a grid', 256 * 9, geometry)


def lanes(idx):
    l, w = digits(idx, 81, 81)
    l, w = digits(l, 3, 3, 3, 3), digits(w, 3, 3, 3, 3)
    h = History([edge(k, k, [1, 2.0, 6][l[k]]) for k in range(4)], [[[0, 1, 5][x] for x in w]])
    return case(h, STYLES[(sum(l) + sum(w)) % 2])


family('lanes', 'four edges: all lane-counts 1, 2, 6 and workloads 0, 1, 5', 81 * 81, lanes)

SIZES = [19, 20, 21, 40, 41] + ([60, 100] if TIER == 'thorough' else [])


def quantiles(idx):
    z, o, y = digits(idx, max(SIZES) + 1, 3, len(SIZES))
    n = SIZES[y]
    if z > n:
        return 0, None, None
    base = [0] * z + [3 + k // 2 for k in range(n - z)]
    a = [base, base[::-1], base[0::2] + base[1::2]][o]
    b = [(x * 7 + k * k) % 23 for k, x in enumerate(a)]
    return case(History([edge(k, k / 8, 1 + k % 3) for k in range(n)], [a, b]), STYLES[idx % 2])


family('quantiles', f'networks of {SIZES} edges, of which 0..all are not used, in three orders', (max(SIZES) + 1) * 3 * len(SIZES), quantiles)


def iterations(idx):
    n, gap, style, more = digits(idx, 13, 14, 3, 2)
    n += 1
    h = History([edge(8, 0), edge(5, 1, 2.0)], [[(i * 5) % 7, 1 + (i * i) % 11] for i in range(n)])
    extra = {}
    if gap < 13:
        # an iteration behind a gap does not count
        other = History(h.edges, [[99, 98]] * (n + 1 + gap + 1)).files()
        extra = {k: v for k, v in other.items() if k.startswith(f'{n + 1 + gap}/')}
    if more:
        extra['balanced/graph.fmi'] = '2\n'
        extra['0/graph.fmi'] = '3\n'
    return case(h, [None, 'light', 'dark'][style], extra) if style else case_default(h, extra)


def case_default(h, extra):
    return case(h, None, extra)


family('iterations', '1..13 iterations, with a further one behind a gap of 1..13 or without, other files', 13 * 14 * 3 * 2, iterations)


# ---- defects

def defects(idx):
    it, what, style, row = digits(idx, 2, 12, 2, 3)
    h = History([edge(2, 0, 2), edge(9, 1), edge(4, 2)], [[3, 1, 2], [0, 6, 2]])
    files = h.files()
    e, a = f'{it}/stats/edges-info.csv', f'{it}/stats/abs_workloads.csv'
    refused = True

    def rows(name, g):
        lines = files[name].splitlines()
        files[name] = '\n'.join([lines[0]] + g(lines[1:])) + '\n'

    cut = lambda r: r[:row] + r[row + 1:]
    if what == 0:
        del files[a]
    elif what == 1:
        del files[e]
    elif what == 2:
        files[a] = files[a].replace('num_routes', 'workload')
    elif what == 3:
        files[e] = files[e].replace(EDGE_COLUMNS[row + 1], 'other')
    elif what == 4:
        files[e] = files[e].replace(EDGE_COLUMNS[row + 4], 'other')
    elif what == 5:
        rows(a, cut)
    elif what == 6:
        rows(e, cut)
    elif what == 7:
        rows(a, lambda r: r + ['77 5'])
    elif what == 8:
        rows(a, lambda r: r + [r[row]])
    elif what == 9:
        rows(a, lambda r: [x + 'x' if k == row else x for k, x in enumerate(r)])
    elif what == 10:
        rows(a, lambda r: ['5' + x if k == row else x for k, x in enumerate(r)])
    elif what == 11:
        files[a] = ''
    # the edges of later iterations are not needed
    refused = not (it > 0 and what in (1, 3, 4, 6))
    root = f'{SCRATCH}/{os.getpid()}/results'
    put(files, root)
    try:
        show(root, STYLES[style])
        done = True
    except SystemExit as x:
        done = x.code in (0, None)
    except Exception:
        done = False
    if refused:
        need(not done, f'defect {what} at row {row} of iteration {it}: figures are drawn from {files}')
    after = tree(root)
    need(all(after.get(k) == v for k, v in files.items()), 'an input has been changed')
    return 1, (what, it, done), f'defect {what} in iteration {it}: {"accepted" if done else "refused"}'


family('defects', 'a file or column is missing, rows are missing, doubled, of other edges or unreadable, in each iteration', 2 * 12 * 2 * 3, defects)


# ---- the scale

def scale(idx):
    """TwoSlopeLoggedNorm as described in its docs"""
    try:
        sys.path.insert(0, TOOL)
        from visualizing.helpers import TwoSlopeLoggedNorm
    except ImportError:
        return 0, None, None
    finally:
        sys.path.remove(TOOL)
    base, lo, c, hi, given = digits(idx, 6, 7, 8, 7, 2)
    base = [1.5, 2.0, 3.0, 10.0, 50.0, math.e][base]
    lo, hi = lo - 3.0, hi - 3.0
    c = None if c == 7 else c - 3.0
    if not lo < hi or (c is not None and not lo < c < hi):
        return 0, None, None
    xs = np.linspace(lo, hi, 25)
    norm = TwoSlopeLoggedNorm(vcenter=c, base=base)
    if given:
        norm.vmin, norm.vmax = lo, hi
    else:
        norm.autoscale_None(xs)
    got = np.array(norm(xs), dtype=float)
    log = lambda t: math.log(1.0 + (base - 1.0) * t) / math.log(base)
    if c is None:
        want = [log((x - lo) / (hi - lo)) for x in xs]
    else:
        want = [0.5 + 0.5 * log((x - c) / (hi - c)) if x >= c else 0.5 - 0.5 * log((c - x) / (c - lo)) for x in xs]
    need(near(np.round(got, 7), np.round(want, 7)) or np.max(np.abs(got - want)) < 1e-7, f'base {base}, [{lo}, {c}, {hi}]: {got} instead of {want}')
    return 1, tuple(np.round(got, 6)), f'base {base}, [{lo}, {c}, {hi}]: {got[::6]}'


family('scale', 'logged scales: all bases, minima, centers and maxima of a grid', 6 * 7 * 8 * 7 * 2, scale)


# ---- the program

def program(idx):
    style, place, cwd, hist = digits(idx, 5, 2, 3, 3)
    h = History([edge(8, 0), edge(5, 1, 2.0)], [[[4, 0], [1, 1]], [[2, 3]], [[0, 5], [6, 0], [2, 2]]][hist])
    home = f'{SCRATCH}/{os.getpid()}'
    root = f'{home}/results'
    files = h.files()
    put(files, root)
    cwd = [REPO, home, '/'][cwd]
    tool = os.path.relpath(TOOL, cwd)
    arg = root if place == 0 else os.path.relpath(root, REPO)
    args = [sys.executable, '-B', tool] + ([] if style == 4 else ['--results-dir', arg]) + [[], ['--style', 'light'], ['--style', 'dark'], ['--style', 'red'], []][style]
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': STUB, 'HOME': home}
    p = subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, timeout=60)
    new = {k: v for k, v in tree(root).items() if k not in files}
    if style >= 3:
        need(p.returncode != 0 and not new, f'{args} is accepted: {p.stdout} {p.stderr}')
    else:
        need(p.returncode == 0, f'{args} in {cwd}: {p.stdout} {p.stderr}')
        need(len(new) == 4 + 6 * len(h.loads) - 2, f'{args}: {sorted(new)}')
    need(all(tree(root).get(k) == v for k, v in files.items()), 'an input has been changed')
    return 1, (style, len(new)), f'{args}: {len(new)} figures'


family('program', 'called as program: all styles, none, an unknown one, no directory; absolute and relative directory; three working directories', 5 * 2 * 3 * 3, program)


# ---- results of the real balancer, with the configs of README's example

CLI, MC = os.environ.get('MC_CLI'), os.environ.get('MC_BIN')
BALANCING = 'resources/isle_of_man_2020-03-14'


def read_back(results, n):
    """the files by their columns' names"""
    edges, loads, edge_rows, load_rows = {}, [], [], []

    def rows(name):
        with open(os.path.join(results, name)) as f:
            lines = [l.split() for l in f.read().splitlines()]
        return [dict(zip(lines[0], l)) for l in lines[1:]]
    for i in range(n):
        for r in rows(f'{i}/stats/edges-info.csv'):
            e = {c: float(r[c]) for c in EDGE_COLUMNS}
            edges.setdefault(int(r['edge-id']), {**e, 'edge-id': int(r['edge-id'])})
        loads.append({int(r['edge-id']): int(r['num_routes']) for r in rows(f'{i}/stats/abs_workloads.csv')})
    ids = sorted(edges)
    return History([edges[k] for k in ids], [[l[k] for k in ids] for l in loads])


def balancer(idx):
    style, counts, mask = digits(idx, 2, 2, 63)
    mask += 1
    home = f'{SCRATCH}/{os.getpid()}/balancing'
    shutil.rmtree(home, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, BALANCING, 'balancing'), f'{home}/{BALANCING}/balancing')
    ids = [30, 4, 12]
    arcs = [x for k, x in enumerate(itertools.permutations(range(3), 2)) if mask >> k & 1]
    used = sorted({v for a in arcs for v in a})
    fmi = [3, len(used), len(arcs)]
    fmi += [f'{k} {ids[v]} {48.5 + v / 4} {9.25 - v / 2}' for k, v in enumerate(used)]
    fmi += [f'{90 - 7 * k} {ids[a]} {ids[b]} {1.5 + k} {0.25 + (k * 5) % 3} {1 + k % 2}' for k, (a, b) in enumerate(arcs)]
    reach = {v: {v} for v in used}
    for _ in used:
        for a, b in arcs:
            reach[a] |= reach[b]
    pairs = [f'{ids[a]} {ids[b]} {1 + counts * (a + b)}' for a in used for b in used if a != b and b in reach[a]]
    tool = 'externals/multi-ch-constructor'
    put({'graph.fmi': '\n'.join(map(str, fmi)) + '\n', '10_000.route-pairs': '\n'.join([str(len(pairs))] + pairs) + '\n'}, f'{home}/new')
    for f in ('graph.fmi', '10_000.route-pairs'):
        os.rename(f'{home}/new/{f}', f'{home}/{BALANCING}/{f}')
    for d in ('bin', f'{tool}/build'):
        os.makedirs(f'{home}/{d}')
    os.symlink(MC, f'{home}/bin/cmake')
    os.symlink(MC, f'{home}/{tool}/build/multi-ch')
    with open(f'{home}/{tool}/plan', 'w') as f:
        f.write('contract')
    env = {'PATH': f'{home}/bin:/usr/bin:/bin', 'HOME': home}
    args = [f'{CLI}/osmgraphing-gpl', '--config', f'{BALANCING}/balancing/config.yaml', '--balancing', '--log', 'ERROR']
    p = subprocess.run(args, cwd=home, env=env, capture_output=True, text=True, timeout=50)
    need(p.returncode == 0, f'balancing of {fmi} fails: {p.stderr}')
    base = f'{home}/custom/results/isle_of_man_2020-03-14'
    dated = os.listdir(base)
    need(len(dated) == 1, f'results are {dated}')
    root = os.path.join(base, dated[0])
    try:
        h = read_back(root, 3)
    except (KeyError, OSError) as e:
        raise Violated(f'the results have not what the visualizer reads: {e!r}')
    before = tree(root)
    try:
        out, figures = show(root, STYLES[style])
        judge(h, STYLES[style], out, figures)
    except Violated as e:
        raise Violated(f'{fmi}, routes {pairs}: {h}: {e}')
    after = tree(root)
    need(all(after.get(k) == v for k, v in before.items()), 'an input has been changed')
    shutil.rmtree(home)
    return 3, (sorted(h.edges, key=str), h.loads) and str(h), f'balanced {arcs}: {h}'


if CLI and MC:
    family('balancer', 'results which the real balancer makes of all maps of three nodes and two route-pair-files, by the configs of the example in README', 63 * 2 * 2, balancer)


# ---------------------------------------------------------------- the search

def work(job):
    name, idx = job
    f = next(f for f in FAMILIES if f[0] == name)[3]
    signal.alarm(60)
    try:
        t, outcome, sample = f(idx)
        return idx, None, t, hash(outcome), sample if idx % 997 == 5 or ONLY else None
    except Violated as e:
        return idx, str(e), 0, 0, None
    except Exception:
        return idx, 'panic: ' + traceback.format_exc(limit=-4), 0, 0, None
    finally:
        signal.alarm(0)


def hang(*_):
    raise Violated('no answer within 60 s')


def main():
    t0 = time.time()
    signal.signal(signal.SIGALRM, hang)
    fams, states, transitions, outcomes, samples, violations = [], 0, 0, set(), [], 0
    with multiprocessing.Pool(int(os.environ.get('MC_WORKERS', '8'))) as pool:
        for name, rule, n, _ in FAMILIES:
            if ONLY and ONLY[0] != name:
                continue
            if violations:
                fams.append({'name': name, 'rule': rule, 'cases': 0})
                continue
            jobs = [(name, int(ONLY[1]))] if ONLY else [(name, i) for i in range(n)]
            t1, bad, steps = time.time(), [], 0
            for idx, err, t, o, s in pool.imap_unordered(work, jobs, chunksize=max(1, min(64, n // 64))):
                steps += t
                if err is None:
                    outcomes.add((name, o))
                    if s and len([x for x in samples if x.startswith(f'[{name}]')]) < 2:
                        samples.append(f'[{name}] {s}')
                else:
                    bad.append((idx, err))
                    if len(bad) >= 3:
                        break
            states += len(jobs)
            transitions += steps
            fams.append({'name': name, 'rule': rule, 'cases': len(jobs)})
            print(f'C22 {name}: {len(jobs)} cases, {steps} transitions, {time.time() - t1:.1f}s{"  ** VIOLATED **" if bad else ""}', file=sys.stderr)
            for idx, err in sorted(bad)[:3]:
                path = f'{OUT}/replay/C22-{name.replace("-", "_")}-{idx}.txt'
                with open(path, 'w') as f:
                    f.write(f'property: C22\ncase: {name}:{idx}\n{err}\nreplay: bash /verif/check.sh C22 {TIER} --case {name}:{idx}\n')
                print(f'VIOLATION property=C22 replay={path}')
                if ONLY:
                    print(err)
                violations += 1
        pool.terminate()
    if ONLY:
        print(*samples, sep='\n')
        return 1 if violations else 0
    rule = ' | '.join(f'{f["name"]} ({f["cases"]} cases): {f["rule"]}' for f in fams)
    evidence = {
        'property': 'C22', 'tier': TIER, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions, 'traces_validated_against_impl': states - violations, 'evaluations': states,
            'distinct_nontrivial': len(outcomes), 'exhaustive': not violations,
            'rule': 'every case of every family, given to the real visualizer and judged by an independent oracle; transitions are iterations shown; distinct_nontrivial counts distinct observed outcomes. ' + rule,
            'families': fams, 'samples': samples[:12], 'violations': violations,
        },
        'wall_s': round(time.time() - t0, 3),
    }
    d = os.environ.get('MC_EVIDENCE', '/verif/evidence')
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/C22.json', 'w') as f:
        json.dump(evidence, f)
        f.write('\n')
    print(f'C22: {states} states, {transitions} transitions, {len(outcomes)} distinct outcomes, {time.time() - t0:.1f}s, {violations} violation(s)', file=sys.stderr)
    return 1 if violations else 0


try:
    rc = main()
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
