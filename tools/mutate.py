"""Mutation analysis of the checks (development tool).

mutate.py gen OUT      all single-point mutants of the sources that pass the
                       tests go to OUT/<n>/ (patch.diff and the module)
mutate.py run OUT [STRIDE [CHECK ...]]
                       runs the checks (every STRIDE-th task) against each
                       mutant without a verdict yet; writes OUT/<n>/verdict
"""
import ast
import copy
import difflib
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/os_urlpattern'
PY = '/opt/venv/bin/python'
FILES = ['parse_utils.py', 'pattern_cluster.py', 'pattern_matcher.py',
         'parsed_piece_view.py', 'pattern_maker.py', 'piece_pattern_node.py',
         'pattern.py', 'parser.py', 'formatter.py', 'utils.py',
         'definition.py', 'cmdline.py', 'compat.py']
if os.environ.get('FILES'):
    FILES = os.environ['FILES'].split(',')
SKIP = {'LogSpeedAdapter', 'used_memory', 'format_byte', 'with_metaclass',
        'MemoryUsageFormatter', '_config_logging', 'pretty_counter',
        '__str__', '__repr__', '__init__.py', 'load_config'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
NAMES = {'max': 'min', 'min': 'max', 'sorted': 'list', 'reversed': 'list',
         'set': 'list', 'rfind': 'find', 'find': 'rfind', 'any': 'all',
         'all': 'any', 'startswith': 'endswith', 'endswith': 'startswith',
         'extend': 'append', 'lstrip': 'strip', 'strip': 'rstrip',
         'rstrip': 'strip', 'LengthPatternCluster': 'FuzzyPatternCluster',
         'MixedPatternCluster': 'LastDotSplitFuzzyPatternCluster',
         'MixedView': 'MultiView', 'MIXED_RULE_SET': 'SIGN_RULE_SET',
         'DIGIT_AND_ASCII_RULE_SET': 'MIXED_RULE_SET'}


def mutants(tree):
    """(description, mutated tree)"""
    nodes = []

    def walk(n, skip):
        for name, val in ast.iter_fields(n):
            for i, c in enumerate(val if isinstance(val, list) else [val]):
                if isinstance(c, ast.AST):
                    if getattr(c, 'name', None) in SKIP:
                        continue
                    if isinstance(c, ast.Expr) and isinstance(
                            c.value, ast.Constant):
                        continue
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        continue
                    nodes.append(c)
                    walk(c, skip)
    walk(tree, False)
    for i, n in enumerate(nodes):
        n._mid = i

    def variant(n, fn, what):
        t = copy.deepcopy(tree)
        for m in ast.walk(t):
            if getattr(m, '_mid', -1) == n._mid:
                r = fn(m)
                if r is not None:
                    class R(ast.NodeTransformer):
                        def visit(self, x):
                            if x is m:
                                return r
                            return self.generic_visit(x)
                    t = R().visit(t)
                break
        return ('%d %s' % (getattr(n, 'lineno', 0), what),
                ast.fix_missing_locations(t))

    for n in nodes:
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    def f(m, j=j, o=o):
                        m.ops[j] = o()
                    yield variant(n, f, '%s->%s' % (type(op).__name__,
                                                    o.__name__))
        elif isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            yield variant(n, f, 'and<->or')
            for j in range(len(n.values)):
                def f(m, j=j):
                    del m.values[j]
                    if len(m.values) == 1:
                        return m.values[0]
                yield variant(n, f, 'drop operand %d' % j)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield variant(n, lambda m: m.operand, 'drop not')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                def f(m):
                    m.value = not m.value
                yield variant(n, f, 'flip %s' % n.value)
            elif isinstance(n.value, int):
                for d in (1, -1):
                    def f(m, d=d):
                        m.value += d
                    yield variant(n, f, '%d%+d' % (n.value, d))
            elif isinstance(n.value, str) and len(n.value) < 4:
                def f(m):
                    m.value = '' if m.value else 'x'
                yield variant(n, f, 'string %r' % n.value)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add,
                                                            ast.Sub)):
            def f(m):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
            yield variant(n, f, '+<->-')
        elif isinstance(n, (ast.If, ast.While)):
            def f(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield variant(n, f, 'negate test')
            if isinstance(n, ast.If):
                for b in (True, False):
                    def f(m, b=b):
                        m.test = ast.BoolOp(ast.Or() if b else ast.And(),
                                            [m.test, ast.Constant(b)])
                    yield variant(n, f, 'test always %s' % b)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            yield variant(n, lambda m: ast.Pass(), 'delete statement')
        elif isinstance(n, ast.Continue):
            yield variant(n, lambda m: ast.Break(), 'continue->break')
            yield variant(n, lambda m: ast.Pass(), 'continue->pass')
        elif isinstance(n, ast.Break):
            yield variant(n, lambda m: ast.Continue(), 'break->continue')
            yield variant(n, lambda m: ast.Pass(), 'break->pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            def f(m):
                m.value = ast.Constant(None)
            yield variant(n, f, 'return None')
        elif isinstance(n, ast.IfExp):
            yield variant(n, lambda m: m.body, 'ifexp body')
            yield variant(n, lambda m: m.orelse, 'ifexp else')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                and n.id in NAMES:
            def f(m):
                m.id = NAMES[m.id]
            yield variant(n, f, '%s->%s' % (n.id, NAMES[n.id]))
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            def f(m):
                m.attr = NAMES[m.attr]
            yield variant(n, f, '.%s->%s' % (n.attr, NAMES[n.attr]))
        if isinstance(n, ast.Call) and len(n.args) > 1 and not isinstance(
                n.func, ast.Attribute):
            def f(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield variant(n, f, 'swap arguments')
        if isinstance(n, ast.Call) and n.keywords:
            def f(m):
                m.keywords.pop()
            yield variant(n, f, 'drop keyword')


def gen(out):
    os.makedirs(out, exist_ok=True)
    work = []
    for fn in FILES:
        s = open(os.path.join(SRC, fn)).read()
        tree = ast.parse(s)
        base = ast.unparse(tree)
        seen = {base}
        for what, t in mutants(tree):
            m = ast.unparse(t)
            if m in seen:
                continue
            seen.add(m)
            work.append((fn, what, base, m))
    print(len(work), 'mutants')

    def one(job):
        k, (fn, what, base, m) = job
        d = '/tmp/mutw/%d' % k
        shutil.rmtree(d, True)
        shutil.copytree('/repo', d, symlinks=True, ignore=
                        shutil.ignore_patterns('.git', 'build', '*.egg-info'))
        open(d + '/src/os_urlpattern/' + fn, 'w').write(m)
        e = dict(os.environ, PYTHONPATH=d + '/src', PYTHONHASHSEED='0',
                 PATH='/opt/venv/bin:' + os.environ['PATH'],
                 PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p',
                                'no:cacheprovider', 'tests'], cwd=d, env=e,
                               capture_output=True, timeout=60)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        shutil.rmtree(d, True)
        if ok:
            o = os.path.join(out, '%04d' % k)
            os.makedirs(o, exist_ok=True)
            open(o + '/' + fn, 'w').write(m)
            json.dump({'file': fn, 'what': what},
                      open(o + '/info.json', 'w'))
            open(o + '/diff', 'w').writelines(difflib.unified_diff(
                base.splitlines(True), m.splitlines(True), n=2))
        return ok
    with ThreadPoolExecutor(int(os.environ.get('W', '8'))) as ex:
        print(sum(ex.map(one, enumerate(work))), 'survive the tests')


ORDER = {
    'parse_utils.py': (11, 12, 13, 7, 9, 1, 2),
    'pattern_cluster.py': (1, 2, 5, 6, 3, 4),
    'pattern_matcher.py': (9, 8, 10, 1, 14, 16),
    'parsed_piece_view.py': (1, 9, 2, 5, 6, 10, 8),
    'pattern_maker.py': (3, 14, 16, 17, 15),
    'piece_pattern_node.py': (3, 2, 14, 17),
    'pattern.py': (13, 7, 9, 8, 1),
    'parser.py': (11, 7, 15, 16, 14),
    'formatter.py': (17,),
    'utils.py': (3, 17, 14, 2, 9, 18, 19),
    'definition.py': (12, 11, 13),
    'cmdline.py': (18, 19),
    'compat.py': (18, 19, 11, 3),
}


def run(out, stride='20', *checks):

    def one(o):
        if os.path.exists(o + '/verdict'):
            return
        info = json.load(open(o + '/info.json'))
        d = '/tmp/mutr/' + os.path.basename(o)
        shutil.rmtree(d, True)
        shutil.copytree('/repo/src', d + '/src')
        shutil.copy(o + '/' + info['file'], d + '/src/os_urlpattern/')
        verdict = 'SURVIVED'
        for c in checks or ['C%02d' % i for i in ORDER[info['file']]]:
            e = dict(os.environ, MC_REPO_SRC=d + '/src', MC_OUT=d,
                     MC_STRIDE=stride, MC_NOCONFIRM='1', MC_PROCS='1')
            try:
                r = subprocess.run(['bash', V + '/run.sh', c, 'quick'],
                                   env=e, capture_output=True, text=True,
                                   timeout=700)
            except subprocess.TimeoutExpired:
                verdict = c + ' timeout'
                continue
            if r.returncode == 1:
                verdict = 'killed ' + c + ' ' + r.stdout[-700:]
                break
            if r.returncode != 0:
                verdict = 'ERROR ' + c + ' ' + r.stderr[-700:]
                break
        shutil.rmtree(d, True)
        open(o + '/verdict', 'w').write(verdict)
        print(os.path.basename(o), info, verdict[:12], flush=True)

    with ThreadPoolExecutor(int(os.environ.get('W', '8'))) as ex:
        todo = sorted(glob.glob(out + '/[0-9]*'))
        only = os.environ.get('ONLY')
        if only:
            todo = [o for o in todo if json.load(
                open(o + '/info.json'))['file'] in only.split(',')]
        list(ex.map(one, todo[int(os.environ.get('FROM', '0'))::int(
            os.environ.get('EVERY', '1'))]))


{'gen': gen, 'run': run}[sys.argv[1]](*sys.argv[2:])
