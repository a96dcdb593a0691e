"""Preemption of simulated threads between statements (or between the parts of expressions) of chosen modules.

The modules are compiled from the repository's source with calls of a do-nothing function added at every place where
another thread may take over; which of these places do so is decided by the plan of a run.  Has to be imported, and
`instrument` called, before `scaled` is.
"""
import ast
import importlib.machinery
import sys

from hypothesis import strategies as st

from .sim import kernel as K

DELAYS = [1e-6, 3e-5, 0.0006, 0.003, 0.051, 0.12, 0.7]
_active = None


def _point(fine=False):
    if _active is not None:
        _active.step(fine)


def _passing(value):
    if _active is not None and _active.fine:
        _active.step(True)
    return value


class _Insert(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _call(self, at, fine=False):
        c = ast.Call(ast.Name("__vp_point__", ast.Load()), [ast.Constant(True)] if fine else [], [])
        return ast.copy_location(c, at)

    def _body(self, stmts):
        out = []
        for i, x in enumerate(stmts):
            doc = i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            if not doc:
                out.append(ast.copy_location(ast.Expr(self._call(x)), x))
            out.append(x)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for name in ("body", "orelse", "finalbody"):
                v = getattr(node, name, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    setattr(node, name, self._body(v))
        return node

    def _function(self, node):
        self.depth += 1
        decorators, returns, args = node.decorator_list, node.returns, node.args
        node.body = [self.visit(x) for x in node.body]
        node.body = self._body(node.body)
        self.depth -= 1
        node.decorator_list, node.returns, node.args = decorators, returns, args
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value is not None else None
        return node

    def _pass(self, node):
        if not self.depth:
            return node
        return ast.copy_location(ast.Call(ast.Name("__vp_pass__", ast.Load()), [node], []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "super":
            return node
        return self._pass(self.generic_visit(node))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return self._pass(node) if isinstance(node.ctx, ast.Load) else node

    def visit_Compare(self, node):
        return self._pass(self.generic_visit(node))

    def _comprehension(self, node):
        self.generic_visit(node)
        if self.depth and hasattr(node, "elt"):
            node.elt = self._pass(node.elt)
        elif self.depth:
            node.value = self._pass(node.value)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comprehension


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(_Insert().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__vp_point__"] = _point
        module.__dict__["__vp_pass__"] = _passing
        super().exec_module(module)


class _Finder:
    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.names:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(fullname, spec.origin)
        return spec


def instrument(*names):
    late = [n for n in names if n in sys.modules]
    assert not late, f"{late} are imported already"
    sys.meta_path.insert(0, _Finder(names))


def strategy(size=50, spread=25):
    """[gap, delay]: pass `gap` more places, then let others run for `delay`; used up once unless `again`"""
    pair = st.tuples(st.one_of(st.integers(0, 3), st.integers(0, spread), st.integers(0, spread * 8)),
                     st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4, 5, 6])).map(list)
    n = st.sampled_from([0, 1, size // 4, size // 2])
    return st.fixed_dictionaries({"at": n.flatmap(lambda k: st.lists(pair, min_size=k, max_size=size)),
                                  "fine": st.booleans(), "again": st.booleans()})


NONE = {"at": [], "fine": False, "again": False}


class Preempt:
    """`with Preempt(plan, select): …` lets the threads of the selected processes be preempted"""

    def __init__(self, plan, select, limit=600, seconds=15.0, traps=False):
        self.traps = traps
        self.trap = None  # [thread, places to pass, what to do there, how long to stay]
        self.passed = []  # places passed while the trap was set
        self.at = plan["at"]
        self.again = plan["again"]
        self.fine = plan["fine"]
        self.select = select
        self.i = 0
        self.left = self.at[0][0] if self.at else -1
        self.trapped = []
        self.taken = 0
        self.limit = limit
        self.seconds = seconds
        self.spent = 0.0
        self.where = {}
        self.switched = 0  # preemptions at which another thread of the same process ran

    def __enter__(self):
        global _active
        _active = self if self.at or self.traps else None
        return self

    def __exit__(self, *a):
        global _active
        _active = None

    def set_trap(self, gap, action, stay, who=None):
        """the `gap`-th place that this thread (or one for which who(thread) holds) passes from now on"""
        me = K.cur_thread()
        self.trap = [who or (lambda th: th is me), gap, action, stay]

    def _caught(self):
        th = K.cur_thread()
        return th is not None and not th.proc.killed and self.select(th.proc) and self.trap[0](th)

    def step(self, fine):
        if self.trap is not None and (self.fine or not fine) and self._caught():
            f = sys._getframe(2)
            self.passed.append((f.f_code.co_name, f.f_lineno))
            self.trap[1] -= 1
            if self.trap[1] < 0:
                (_, _, action, stay), self.trap = self.trap, None
                self.trapped.append(self.passed[-1])
                th = K.cur_thread()
                action()
                k = th.proc.kernel
                end = k.now + stay
                while k.now < end:
                    k.block(end)
                return
        if self.left < 0 or fine and not self.fine:
            return
        th = K.cur_thread()
        if th is None or th.proc.killed or not self.select(th.proc):
            return
        if self.left > 0:
            self.left -= 1
            return
        d = DELAYS[self.at[self.i][1]]
        self.i += 1
        if self.i >= len(self.at):
            if not self.again or self.taken > self.limit:
                self.left = -1
            else:
                self.i = 0
                self.left = self.at[0][0]
        else:
            self.left = self.at[self.i][0]
        self.taken += 1
        self.seconds -= d
        if self.seconds < 0:
            d = DELAYS[0]
        self.spent += d
        k = th.proc.kernel
        before = sum(t.runs for t in th.proc.threads)
        k.block(k.now + d)
        if sum(t.runs for t in th.proc.threads) > before + 1:
            self.switched += 1
            f = sys._getframe(2)
            key = (f.f_code.co_name, f.f_lineno)
            self.where[key] = self.where.get(key, 0) + 1
