"""Mechanical instrumentation of the real source.

Every function body of an ``ansibug`` module is re-compiled from the file in
/repo/src on every run with each operator whose native implementation cannot
dispatch on a symbolic operand (calls, subscripts, ``is``/``in``, attribute
stores, displays, comprehensions, f-strings, ``%``, loops) replaced by a call to
``pyvc.rt``.  ``rt`` is the identity on concrete operands.  Control flow,
exceptions, generators, context managers, closures, class creation and operator
dispatch are executed by CPython itself.  Nothing is dropped except annotations
on local variables; generator expressions are evaluated eagerly.
"""
from __future__ import annotations

import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "__pyvc_rt__"


def _rt(name: str) -> ast.expr:
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def _call(name: str, *args: ast.expr) -> ast.Call:
    return ast.Call(_rt(name), list(args), [])


def _const(v) -> ast.expr:
    return ast.Constant(v)


class _Stored(ast.NodeVisitor):
    """Names (re)bound by a statement list, not descending into scopes."""

    def __init__(self) -> None:
        self.names: list[str] = []

    def add(self, n: str) -> None:
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_AsyncFunctionDef(self, node):
        self.add(node.name)

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def stored_names(stmts) -> list[str]:
    v = _Stored()
    for s in stmts:
        v.visit(s)
    return v.names


class Transformer(ast.NodeTransformer):
    def __init__(self, modname: str) -> None:
        self.modname = modname
        self.cls: list[str] = []
        self.fn: list[str] = []
        self.counter = 0
        self.lifted: list[list[ast.stmt]] = []

    # -- helpers
    def uid(self, p: str) -> str:
        self.counter += 1
        return f"_vc{p}{self.counter}"

    def site(self, node, kind) -> str:
        # ordinal inside the function, not the line number, so that harmless
        # edits elsewhere in the file do not rename a loop
        key = ".".join(self.cls + self.fn)
        self.counter += 1
        return f"{self.modname}:{key}#{kind}{getattr(node, 'lineno', 0)}"

    def mangle(self, name: str) -> str:
        if self.cls and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return f"_{c}{name}"
        return name

    @property
    def active(self) -> bool:
        return bool(self.fn)

    # -- scopes
    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        fn, self.fn = self.fn, []
        lifted, self.lifted = self.lifted, []
        node.body = self.block(node.body)
        self.lifted = lifted
        self.fn = fn
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        if node.name == "__del__":
            return node
        self.fn.append(node.name)
        lifted, self.lifted = self.lifted, []
        node.body = self.block(node.body)
        self.lifted = lifted
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        if not self.active:
            return node
        has_comp = any(
            isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for n in ast.walk(node.body)
        )
        if has_comp:
            name = self.uid("lam")
            fd = ast.FunctionDef(
                name=name, args=node.args, body=[ast.Return(node.body)], decorator_list=[], type_params=[]
            )
            fd = ast.copy_location(fd, node)
            fd = self.visit_FunctionDef(fd)
            self.lifted[-1].append(fd)
            return ast.Name(name, ast.Load())
        node.body = self.visit(node.body)
        return node

    # -- statement lists
    def block(self, stmts):
        out: list[ast.stmt] = []
        for s in stmts:
            self.lifted.append([])
            r = self.visit(s)
            pre = self.lifted.pop()
            out.extend(pre)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        node.finalbody = self.block(node.finalbody) if node.finalbody else []
        return node

    visit_TryStar = visit_Try

    # -- loops
    def updates(self, L: str, names):
        if not names:
            return []
        body = []
        for n in names:
            body.append(
                ast.If(
                    ast.Compare(_const(n), [ast.In()], [ast.Attribute(ast.Name(L, ast.Load()), "upd", ast.Load())]),
                    [
                        ast.Assign(
                            [ast.Name(n, ast.Store())],
                            ast.Subscript(
                                ast.Attribute(ast.Name(L, ast.Load()), "upd", ast.Load()), _const(n), ast.Load()
                            ),
                        )
                    ],
                    [],
                )
            )
        return [ast.If(ast.Attribute(ast.Name(L, ast.Load()), "upd", ast.Load()), body, [])]

    def visit_For(self, node):
        if not self.active:
            return self.generic_visit(node)
        site = self.site(node, "for")
        names = stored_names(node.body + [ast.Assign([copy.deepcopy(node.target)], _const(None))])
        L = self.uid("L")
        it = self.visit(node.iter)
        pre = ast.Assign(
            [ast.Name(L, ast.Store())],
            _call("loop", it, _const(site), ast.Tuple([_const(n) for n in names], ast.Load())),
        )
        tgt = self.assign_to([node.target], ast.Attribute(ast.Name(L, ast.Load()), "item", ast.Load()))
        body = self.block(node.body)
        orelse = self.block(node.orelse) if node.orelse else []
        w = ast.While(
            ast.Call(
                ast.Attribute(ast.Name(L, ast.Load()), "more", ast.Load()),
                [ast.Call(ast.Name("locals", ast.Load()), [], [])],
                [],
            ),
            self.updates(L, names) + tgt + body,
            (self.updates(L, names) + orelse) or [],
        )
        return [ast.copy_location(pre, node), ast.copy_location(w, node)]

    def visit_While(self, node):
        if not self.active:
            return self.generic_visit(node)
        site = self.site(node, "while")
        names = stored_names(node.body + [ast.Expr(copy.deepcopy(node.test))])
        L = self.uid("L")
        test = self.visit(node.test)
        pre = ast.Assign(
            [ast.Name(L, ast.Store())],
            _call("wloop", _const(site), ast.Tuple([_const(n) for n in names], ast.Load())),
        )
        body = self.block(node.body)
        orelse = self.block(node.orelse) if node.orelse else []
        head = ast.Expr(
            ast.Call(
                ast.Attribute(ast.Name(L, ast.Load()), "head", ast.Load()),
                [ast.Call(ast.Name("locals", ast.Load()), [], [])],
                [],
            )
        )
        w = ast.While(
            _const(True),
            [head]
            + self.updates(L, names)
            + [ast.If(ast.UnaryOp(ast.Not(), test), orelse + [ast.Break()], [])]
            + body,
            [],
        )
        return [ast.copy_location(pre, node), ast.copy_location(w, node)]

    # -- assignment
    def simple_target(self, t) -> bool:
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return all(self.simple_target(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return self.simple_target(t.value)
        return False

    def assign_to(self, targets, value):
        """Assign an (already visited) value expression to the targets."""
        out = []
        if len(targets) == 1 and self.simple_target(targets[0]):
            if isinstance(targets[0], (ast.Tuple, ast.List)):
                n = len(targets[0].elts)
                if not any(isinstance(e, ast.Starred) for e in targets[0].elts):
                    value = _call("unpack", value, _const(n))
            return [ast.Assign([targets[0]], value)]
        tmp = self.uid("t")
        out.append(ast.Assign([ast.Name(tmp, ast.Store())], value))
        for t in targets:
            out.extend(self.store(t, ast.Name(tmp, ast.Load())))
        return out

    def store(self, t, v):
        if isinstance(t, ast.Name):
            return [ast.Assign([t], v)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(_call("setattr", self.visit(t.value), _const(self.mangle(t.attr)), v))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(_call("setitem", self.visit(t.value), self.index(t.slice), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmps = []
            post = []
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    n = self.uid("t")
                    tmps.append(ast.Starred(ast.Name(n, ast.Store()), ast.Store()))
                    post.extend(self.store(e.value, ast.Name(n, ast.Load())))
                elif isinstance(e, ast.Name):
                    tmps.append(e)
                else:
                    n = self.uid("t")
                    tmps.append(ast.Name(n, ast.Store()))
                    post.extend(self.store(e, ast.Name(n, ast.Load())))
            if not any(isinstance(e, ast.Starred) for e in t.elts):
                v = _call("unpack", v, _const(len(t.elts)))
            return [ast.Assign([ast.Tuple(tmps, ast.Store())], v)] + post
        raise NotImplementedError(ast.dump(t))

    def visit_Assign(self, node):
        if not self.active:
            return self.generic_visit(node)
        value = self.visit(node.value)
        return [ast.copy_location(s, node) for s in self.assign_to(node.targets, value)]

    def visit_AnnAssign(self, node):
        if not self.active:
            return node
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        value = self.visit(node.value)
        return [ast.copy_location(s, node) for s in self.assign_to([node.target], value)]

    def visit_AugAssign(self, node):
        if not self.active:
            return self.generic_visit(node)
        op = _const(type(node.op).__name__)
        value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            r = ast.Assign([t], _call("iop", op, ast.Name(t.id, ast.Load()), value))
            return ast.copy_location(r, node)
        tmp = self.uid("t")
        pre = ast.Assign([ast.Name(tmp, ast.Store())], self.visit(t.value))
        base = ast.Name(tmp, ast.Load())
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(base, t.attr, ast.Load())
            st = _call("setattr", base, _const(self.mangle(t.attr)), _call("iop", op, cur, value))
            return [ast.copy_location(pre, node), ast.copy_location(ast.Expr(st), node)]
        tmp2 = self.uid("t")
        pre2 = ast.Assign([ast.Name(tmp2, ast.Store())], self.index(t.slice))
        idx = ast.Name(tmp2, ast.Load())
        st = _call("setitem", base, idx, _call("iop", op, _call("getitem", base, idx), value))
        return [ast.copy_location(x, node) for x in (pre, pre2, ast.Expr(st))]

    def visit_Delete(self, node):
        if not self.active:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("delitem", self.visit(t.value), self.index(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(_call("delattr", self.visit(t.value), _const(self.mangle(t.attr)))))
            else:
                out.append(ast.Delete([t]))
        return [ast.copy_location(s, node) for s in out]

    # -- expressions
    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(
                _rt("slice_"),
                [self.visit(x) if x is not None else _const(None) for x in (s.lower, s.upper, s.step)],
                [],
            )
        return self.visit(s)

    def visit_Subscript(self, node):
        if not self.active or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return ast.copy_location(_call("getitem", self.visit(node.value), self.index(node.slice)), node)

    def visit_Call(self, node):
        if not self.active:
            return self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals") and not node.args:
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(_rt("call"), [func] + args, kws), node)

    def visit_Compare(self, node):
        if not self.active:
            return self.generic_visit(node)
        if len(node.ops) == 1:
            l, r = self.visit(node.left), self.visit(node.comparators[0])
            op = node.ops[0]
            if isinstance(op, ast.Is):
                return ast.copy_location(_call("is_", l, r), node)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(ast.UnaryOp(ast.Not(), _call("is_", l, r)), node)
            if isinstance(op, ast.In):
                return ast.copy_location(_call("in_", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), _call("in_", l, r)), node)
            return ast.copy_location(ast.Compare(l, node.ops, [r]), node)
        # a OP b OP c  ->  rt chain with lambdas (evaluated left to right, once)
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            raise NotImplementedError("mixed comparison chain")
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if self.active and isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.active:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = _const("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), _const(v.conversion), spec], ast.Load()))
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_List(self, node):
        if not self.active or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return ast.copy_location(_call("newlist", *[self.visit(e) for e in node.elts]), node)

    def visit_Set(self, node):
        if not self.active:
            return self.generic_visit(node)
        return ast.copy_location(_call("newset", *[self.visit(e) for e in node.elts]), node)

    def visit_Dict(self, node):
        if not self.active:
            return self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
        return ast.copy_location(_call("newdict", *items), node)

    def visit_NamedExpr(self, node):
        node.value = self.visit(node.value)
        return node

    # comprehensions -> lifted local functions
    def comp(self, node, kind):
        if not self.active:
            return self.generic_visit(node)
        name = self.uid("comp")
        r = "_vcr"
        if kind == "dict":
            inner = [
                ast.Expr(_RawCall("setitem", ast.Name(r, ast.Load()), copy.deepcopy(node.key), copy.deepcopy(node.value)))
            ]
            init = ast.Dict([], [])
        else:
            meth = "add" if kind == "set" else "append"
            inner = [
                ast.Expr(
                    ast.Call(ast.Attribute(ast.Name(r, ast.Load()), meth, ast.Load()), [copy.deepcopy(node.elt)], [])
                )
            ]
            init = ast.Call(ast.Name("set", ast.Load()), [], []) if kind == "set" else ast.List([], ast.Load())
        body = inner
        gens = node.generators
        for gi in reversed(range(len(gens))):
            g = gens[gi]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            it = ast.Name("_vcit", ast.Load()) if gi == 0 else g.iter
            f = ast.For(g.target, it, body, [])
            f = ast.copy_location(f, node)
            body = [f]
        fbody = [ast.Assign([ast.Name(r, ast.Store())], init)] + body
        if kind == "gen" and len(gens) == 1 and not gens[0].ifs and not any(
            isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node.elt)
        ):
            # over an unknown number of elements: one element at a time, when it is asked for
            elt = ast.FunctionDef(
                name="_vcelt",
                args=ast.arguments([], [ast.arg("_vcx")], None, [], [], None, []),
                body=[
                    ast.Assign([copy.deepcopy(gens[0].target)], ast.Name("_vcx", ast.Load())),
                    ast.Return(copy.deepcopy(node.elt)),
                ],
                decorator_list=[],
                type_params=[],
            )
            fbody = [
                ast.Assign([ast.Name("_vcit", ast.Store())], _RawCall("genprep", ast.Name("_vcit", ast.Load()))),
                elt,
                ast.Assign([ast.Name("_vcm", ast.Store())], _RawCall("genmap", ast.Name("_vcit", ast.Load()), ast.Name("_vcelt", ast.Load()))),
                ast.If(
                    ast.Compare(ast.Name("_vcm", ast.Load()), [ast.Is()], [ast.Constant(None)]),
                    fbody[:],
                    [ast.Return(ast.Name("_vcm", ast.Load()))],
                ),
            ]
            fbody[3].body.append(ast.Return(_RawCall("mkiter", ast.Name(r, ast.Load()))))
        if kind == "gen" and not isinstance(fbody[-1], ast.If):
            fbody.append(ast.Return(_RawCall("mkiter", ast.Name(r, ast.Load()))))
        else:
            fbody.append(ast.Return(ast.Name(r, ast.Load())))
        fd = ast.FunctionDef(
            name=name,
            args=ast.arguments([], [ast.arg("_vcit")], None, [], [], None, []),
            body=fbody,
            decorator_list=[],
            type_params=[],
        )
        fd = ast.copy_location(fd, node)
        ast.fix_missing_locations(fd)
        first = self.visit(gens[0].iter)
        self.fn.append(name)
        lifted, self.lifted = self.lifted, []
        fd.body = self.block(fd.body)
        self.lifted = lifted
        self.fn.pop()
        self.lifted[-1].append(fd)
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [first], []), node)

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_SetComp(self, node):
        return self.comp(node, "set")

    def visit_DictComp(self, node):
        return self.comp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen")


class _RawCall(ast.Call):
    """marker call into rt that must not be rewritten again"""

    _fields = ("func", "args", "keywords")

    def __init__(self, name, *args):
        super().__init__(_rt(name), list(args), [])


def _visit_raw(self, node):
    return ast.copy_location(ast.Call(node.func, [self.visit(a) for a in node.args], node.keywords), node)


Transformer.visit__RawCall = _visit_raw  # type: ignore[attr-defined]


def instrument_source(src: str, path: str, modname: str):
    tree = ast.parse(src, path)
    tree = Transformer(modname).visit(tree)
    # inject the runtime after docstring / __future__ imports
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            pos = i + 1
        elif isinstance(s, ast.ImportFrom) and s.module == "__future__":
            pos = i + 1
        else:
            break
    tree.body.insert(pos, ast.parse(f"from pyvc import rt as {RT}").body[0])
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as fh:
            return instrument_source(fh.read(), path, fullname)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root: str, pkg: str = "ansibug") -> None:
        self.root = root
        self.pkg = pkg

    def find_spec(self, name, path, target=None):
        if name != self.pkg and not name.startswith(self.pkg + "."):
            return None
        rel = os.path.join(self.root, *name.split("."))
        if os.path.isdir(rel):
            init = os.path.join(rel, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    name, init, loader=_Loader(name, init), submodule_search_locations=[rel]
                )
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        f = rel + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def install(root: str) -> None:
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root))
