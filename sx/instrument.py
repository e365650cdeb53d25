"""Loads Python modules from source with the operations the executor has to
see replaced by hook calls.  Nothing but the source text of the module decides
what is executed."""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = frozenset((
    'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec',
    'isinstance', 'issubclass', 'hasattr', 'callable', 'id'))


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, *args):
    return ast.Call(func=_name(n), args=list(args), keywords=[])


def _simple(node):
    """An expression that may be evaluated twice."""
    if isinstance(node, ast.Call):
        return isinstance(node.func, ast.Name) and node.func.id == 'len' \
            and all(_simple(i) for i in node.args) and not node.keywords
    if isinstance(node, ast.Subscript):
        return _simple(node.value) and _simple(node.slice)
    if isinstance(node, ast.Slice):
        return all(i is None or _simple(i)
                   for i in (node.lower, node.upper, node.step))
    if isinstance(node, ast.UnaryOp):
        return _simple(node.operand)
    if isinstance(node, ast.BinOp):
        return _simple(node.left) and _simple(node.right)
    if isinstance(node, ast.Attribute):
        return _simple(node.value)
    return isinstance(node, (ast.Name, ast.Constant))


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=_name('__sx_call__'), args=[node.func] + node.args,
            keywords=node.keywords), node)

    def visit_Compare(self, node):
        if len(node.ops) > 1 and not all(
                isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE))
                for op in node.ops):
            # a == b in c: the parts one by one.
            all_ = [node.left] + node.comparators
            if all(_simple(i) for i in all_[1:-1]):
                return self.visit(ast.copy_location(ast.BoolOp(
                    op=ast.And(), values=[
                        ast.copy_location(ast.Compare(
                            left=a if i == 0 else copy.deepcopy(a),
                            ops=[op], comparators=[b]), node)
                        for i, (a, op, b) in enumerate(zip(
                            all_, node.ops, all_[1:]))]), node))
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            fn = None
            if isinstance(op, ast.In):
                fn = '__sx_in__'
            elif isinstance(op, ast.NotIn):
                fn = '__sx_notin__'
            elif isinstance(op, ast.Eq):
                fn = '__sx_eq__'
            elif isinstance(op, ast.NotEq):
                fn = '__sx_ne__'
            elif isinstance(op, (ast.Is, ast.IsNot)) and not (
                    isinstance(b, ast.Constant) and b.value is None):
                fn = '__sx_is__' if isinstance(op, ast.Is) \
                    else '__sx_isnot__'
            if fn:
                return ast.copy_location(_call(fn, a, b), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call('__sx_not__', node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                _call('__sx_mod__', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None \
                    else ast.Constant(value='')
                parts.append(_call(
                    '__sx_fval__', self.visit(v.value),
                    ast.Constant(value=v.conversion), spec))
        return ast.copy_location(_call('__sx_fstr__', *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            items = []
            for k, v in zip(node.keys, node.values):
                items.append(ast.Tuple(elts=[
                    ast.Constant(value=None if k is None else 1),
                    k if k is not None else ast.Constant(value=None), v],
                    ctx=ast.Load()))
            return ast.copy_location(_call('__sx_dict3__', *items), node)
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call('__sx_dict__', *items), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__sx_set__', ast.List(
            elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__sx_set__', ast.ListComp(
            elt=node.elt, generators=node.generators)), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('__sx_dictl__', ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Constant) or (
                    isinstance(s, ast.UnaryOp) and
                    isinstance(s.operand, ast.Constant)):
                return node
            if isinstance(s, ast.Slice):
                none = ast.Constant(value=None)
                s = _call('__sx_slice__', s.lower or none, s.upper or none,
                          s.step or none)
            elif isinstance(s, ast.Tuple):
                return node
            return ast.copy_location(
                _call('__sx_getitem__', node.value, s), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__name__' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('__sx_name__', node.value), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (
                isinstance(node.type, ast.Name) and
                node.type.id == 'BaseException'):
            node.body.insert(0, ast.Expr(value=_call('__sx_reraise__')))
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=_call('__sx_tick__')))
        return node

    visit_For = visit_While = _loop

    def _func(self, node):
        self.stack.append(node.name)
        qual = '%s:%s' % (self.modname, '.'.join(self.stack))
        # decorators, defaults are outside; annotations are dropped
        node.returns = None
        for a in (node.args.posonlyargs + node.args.args +
                  node.args.kwonlyargs + [node.args.vararg,
                                          node.args.kwarg]):
            if a is not None:
                a.annotation = None
        node.body = [self.visit(x) for x in node.body]
        node.args = self.visit(node.args)
        node.decorator_list = [
            d if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d)
            for d in node.decorator_list]
        self.stack.pop()
        enter = ast.Expr(value=_call('__sx_enter__', ast.Constant(qual)))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant) and isinstance(
                node.body[0].value.value, str):
            i = 1
        node.body.insert(i, enter)
        if node.name == '__bool__':     # must be a real bool
            node.decorator_list.append(
                ast.Name(id='__sx_boolm__', ctx=ast.Load()))
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        node.bases = [b if isinstance(b, ast.Starred) else
                      _call('__sx_base__', b) for b in node.bases]
        return node


def compile_source(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


HOOKS = {}
_CODE = {}


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        key = (self.path, self.fullname)
        if key not in _CODE:
            with open(self.path, 'rb') as f:
                source = f.read()
            _CODE[key] = compile_source(source, self.path, self.fullname)
        code = _CODE[key]
        module.__dict__.update(HOOKS)
        module.__dict__['__sx__'] = True
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        # roots: {package: directory}
        self.roots = roots

    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(self.roots[top], *rel)
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, init), origin=init,
                is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, base + '.py'),
                origin=base + '.py')
            spec.has_location = True
            return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(
                fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(roots):
    from . import models
    HOOKS.update(models.HOOKS)
    sys.meta_path.insert(0, Finder(roots))


# (A harness may stand in for that of the module.)
_from_spec = importlib.util.module_from_spec


def load_file(modname, path):
    """Load one file (e.g. with a dash in its name) instrumented."""
    spec = importlib.machinery.ModuleSpec(modname, Loader(modname, path),
                                          origin=path)
    spec.has_location = True
    mod = _from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
