"""Preemption points in the package: its modules are compiled with a call before
every statement and around every expression that can read or change shared data.

Only the check that sets core.TRANSFORM sees the instrumented package; the
instrumentation is part of loading (no file changes) and does nothing for threads
that are not registered in ACTIVE.
"""
import _thread
import ast
import builtins

SITES = []       # (is a statement, file, line, column)
ACTIVE = {}      # thread ident -> function called with the number of the site
NAME = '__mc_step__'
WRAP = (ast.Attribute, ast.Subscript, ast.Call, ast.BinOp, ast.Compare, ast.IfExp)


def step(site, value=None, get=_thread.get_ident):
    if ACTIVE:
        f = ACTIVE.get(get())
        if f is not None:
            f(site)
    return value


class _Functions(ast.NodeTransformer):
    """Instruments the bodies of functions (not what runs on import)."""

    def __init__(self, path, shared):
        self.path, self.shared, self.depth = path, shared, 0

    def site(self, node, statement):
        SITES.append((statement, self.path, node.lineno, node.col_offset))
        return ast.Constant(len(SITES) - 1)

    def call(self, node, statement, *value):
        return ast.copy_location(ast.Call(ast.Name(NAME, ast.Load()), [self.site(node, statement), *value], []), node)

    def visit_FunctionDef(self, node):
        self.depth += 1
        try:
            node.body = self.block(node.body)
            return node
        finally:
            self.depth -= 1

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        try:
            node.body = [self.visit(s) for s in node.body]
            return node
        finally:
            self.depth = depth

    def block(self, body):
        out = []
        for i, s in enumerate(body):
            docstring = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not docstring:
                out.append(ast.copy_location(ast.Expr(self.call(s, True)), s))
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        if not self.depth:
            return super().generic_visit(node)
        for name, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and all(isinstance(x, ast.stmt) for x in old):
                    setattr(node, name, self.block(old))
                else:
                    setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, name, self.visit(old))
        if isinstance(node, ast.AugAssign) and not (isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') == NAME):
            node.value = self.call(node.value, False, node.value)      # between loading and storing the target
        if isinstance(node, WRAP) and isinstance(getattr(node, 'ctx', None) or ast.Load(), ast.Load):
            return self.call(node, False, node)
        return node

    def visit_Name(self, node):
        if self.depth and isinstance(node.ctx, ast.Load) and node.id in self.shared:
            return self.call(node, False, node)
        return node

    def visit_arguments(self, node):     # defaults and annotations of nested functions
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None and self.depth:
            node.value = self.visit(node.value)
        return node


def transform(tree, path):
    shared = set()      # module data
    for s in ast.walk(tree):
        if isinstance(s, ast.Global):
            shared.update(s.names)
    for s in tree.body:
        for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
            for x in ast.walk(t) if t is not None else ():
                if isinstance(x, ast.Name):
                    shared.add(x.id)
    return ast.fix_missing_locations(_Functions(path, shared).visit(tree))


def install(core):
    setattr(builtins, NAME, step)
    core.TRANSFORM = transform
