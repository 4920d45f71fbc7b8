#!/usr/bin/env python3
"""refactor.py [KIND ...]: apply behaviour-preserving rewrites to a scratch copy of the whole package and run every check on it.

Each rewrite is one syntactic transformation applied everywhere it fits; the copy has to pass the stable tests (so the rewrite
really preserves behaviour) and every check has to stay quiet on it.  Used to keep the checks about what the code does.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
N = lambda s: s.replace("::", ".").replace("/", ".").replace(".py", "")
pe = lambda s: ast.parse(s, mode="eval").body
ps = lambda s: ast.parse(s).body
name = lambda n, c=None: ast.Name(n, c or ast.Load())
counter = [0]


def fresh(p):
    counter[0] += 1
    return f"{p}_{counter[0]}"


class T(ast.NodeTransformer):
    def __init__(self):
        self.fn = []

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        n = self.generic_visit(n)
        self.fn.pop()
        return self.function(n)

    def function(self, n):
        return n

    def visit_stmts(self, body):
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.visit_stmts(b))
        return n


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class ReturnVar(T):
    """return E -> result = E; return result"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = fresh("result")
                out += [ast.Assign([name(v, ast.Store())], s.value), ast.Return(name(v))]
            else:
                out.append(s)
        return out


class Nop(T):
    def function(self, n):
        k = 1 if n.body and is_doc(n.body[0]) else 0
        n.body[k:k] = ps("_unused = None")
        return n


class ElseAfterReturn(T):
    """if a: ...return  rest -> if a: ...return else: rest"""
    def visit_stmts(self, body):
        for i, s in enumerate(body):
            if self.fn and isinstance(s, ast.If) and not s.orelse and ends(s.body) and body[i + 1:]:
                s.orelse = self.visit_stmts(body[i + 1:])
                return body[:i + 1]
        return body


class NoElseAfterReturn(T):
    def visit_stmts(self, body):
        out = []
        for s in body:
            out.append(s)
            if self.fn and isinstance(s, ast.If) and s.orelse and ends(s.body):
                out += s.orelse
                s.orelse = []
        return out


class FlipIf(T):
    """if a: X else: Y -> if not a: Y else: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.fn:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class SplitAnd(T):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            for t in reversed(n.test.values[1:]):
                n.body = [ast.If(t, n.body, [])]
            n.test = n.test.values[0]
        return n


class Guard(T):
    """if a: BODY (last statement of a for loop) -> if not a: continue; BODY"""
    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body
        if self.fn and isinstance(b[-1], ast.If) and not b[-1].orelse:
            n.body = b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), b[-1].test), [ast.Continue()], [])] + b[-1].body
        return n


class ForWhile(T):
    """for x in it: B -> explicit iterator"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn or n.orelse:
            return n
        i = fresh("iterator")
        tr = ast.Try([ast.Assign([n.target], pe(f"next({i})"))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
        return [ast.Assign([name(i, ast.Store())], ast.Call(name("iter"), [n.iter], [])), ast.While(ast.Constant(True), [tr] + n.body, [])]


class ForIndex(T):
    """for x in it: B -> for i, x in enumerate(it): B"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn:
            return n
        i = fresh("i")
        n.target = ast.Tuple([name(i, ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(name("enumerate"), [n.iter], [])
        return n


class CompLoop(T):
    """x = [E for a in b if c] / return [...] -> an explicit loop"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
                r = fresh("collected")
                if isinstance(v, ast.ListComp):
                    init, add = pe("[]"), ast.Expr(ast.Call(ast.Attribute(name(r), "append", ast.Load()), [v.elt], []))
                elif isinstance(v, ast.SetComp):
                    init, add = pe("set()"), ast.Expr(ast.Call(ast.Attribute(name(r), "add", ast.Load()), [v.elt], []))
                else:
                    init, add = pe("{}"), ast.Assign([ast.Subscript(name(r), v.key, ast.Store())], v.value)
                b = [add]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        b = [ast.If(c, b, [])]
                    b = [ast.For(g.target, g.iter, b, [])]
                out += [ast.Assign([name(r, ast.Store())], init)] + b
                s.value = name(r)
            out.append(s)
        return out


class LoopComp(T):
    """x = []; for a in b: x.append(E) -> a comprehension"""
    def visit_stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if (self.fn and isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call)
                    and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append"
                    and isinstance(s.body[0].value.func.value, ast.Name) and not s.orelse):
                c = s.body[0].value
                out.append(ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], [])))
            else:
                out.append(s)
        return out


class InChain(T):
    """x in [A, B] -> x == A or x == B"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, (ast.Name, ast.Attribute)):
            es = n.comparators[0].elts
            inn = isinstance(n.ops[0], ast.In)
            if es and not any(isinstance(e, ast.Starred) for e in es):
                cs = [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if inn else ast.NotEq()], [e]) for e in es]
                return cs[0] if len(cs) == 1 else ast.BoolOp(ast.Or() if inn else ast.And(), cs)
        return n


class IsinstanceSplit(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts])
        return n


class KwReverse(T):
    """order of keyword arguments (evaluated in another order, but they are free of effects here)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if n.keywords and all(k.arg for k in n.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords):
            n.keywords.reverse()
        return n


class Format(T):
    """f-strings -> format"""
    def visit_JoinedStr(self, n):
        f, a = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                f += v.value.replace("{", "{{").replace("}", "}}")
            else:
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ":" + "".join(x.value for x in v.format_spec.values)
                f += "{" + ("!" + chr(v.conversion) if v.conversion > 0 else "") + spec + "}"
                a.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(f), "format", ast.Load()), a, [])


class Concat(T):
    """f-strings -> concatenation of str()"""
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion <= 0:
                parts.append(ast.Call(name("str"), [v.value], []))
            else:
                parts.append(ast.JoinedStr([v]))
        parts = parts or [ast.Constant("")]
        r = parts[0]
        for p in parts[1:]:
            r = ast.BinOp(r, ast.Add(), p)
        return r


class AugAssign(T):
    """x += e -> x = x + e (numbers and strings held in names)"""
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) or (isinstance(n.target, ast.Attribute) and isinstance(n.value, ast.Constant)):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class TestVar(T):
    """if <call or comparison>: -> flag = ...; if flag:"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Call, ast.Compare, ast.BoolOp)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                v = fresh("check")
                out.append(ast.Assign([name(v, ast.Store())], s.test))
                s.test = name(v)
            out.append(s)
        return out


class ArgVar(T):
    """f(g(x)) as a statement or assigned -> tmp = g(x); f(tmp)"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            c = getattr(s, "value", None)
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(c, ast.Call):
                for i, a in enumerate(c.args):
                    if isinstance(a, (ast.Name, ast.Constant)):
                        continue
                    if isinstance(a, (ast.Starred, ast.GeneratorExp, ast.Lambda)):
                        break
                    v = fresh("argument")
                    out.append(ast.Assign([name(v, ast.Store())], a))
                    c.args[i] = name(v)
            out.append(s)
        return out


def local_names(fn):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    stores, glob = set(), set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            stores.add(x.id)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            glob.add(x.name)
    return stores - params - glob


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in n.body for x in ast.walk(b)):
            return n
        m = local_names(n)
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = "renamed_" + x.id
        return n


def simple(n):
    a = n.args
    return (not a.vararg and not a.kwarg and not a.posonlyargs and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))
            and not any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(n)))


class Delegate(ast.NodeTransformer):
    """def f(a): BODY -> def f(a): return _do_f(a); def _do_f(a): BODY"""
    def visit_Module(self, n):
        n.body = self.stmts(n.body, False)
        return n

    def visit_ClassDef(self, n):
        n.body = self.stmts(n.body, True)
        return n

    def stmts(self, body, method):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                out.append(self.visit_ClassDef(s))
            elif (isinstance(s, ast.FunctionDef) and simple(s) and not s.name.startswith("__") and not (method and s.decorator_list)
                  and (not method or (s.args.args and s.args.args[0].arg == "self"))):
                inner = copy.deepcopy(s)
                inner.name = "_do_" + s.name.lstrip("_")
                inner.decorator_list = []
                inner.args.defaults, inner.args.kw_defaults = [], [None] * len(inner.args.kwonlyargs)
                args = s.args.args[1:] if method else s.args.args
                call = ast.Call(ast.Attribute(name("self"), inner.name, ast.Load()) if method else name(inner.name), [name(a.arg) for a in args],
                                [ast.keyword(a.arg, name(a.arg)) for a in s.args.kwonlyargs])
                s.body = [ast.Return(call)]
                out += [inner, s]
            else:
                out.append(s)
        return out


class SplitTail(ast.NodeTransformer):
    """methods: the second half of the body becomes a helper method taking the locals it uses"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == "self" and simple(s) and not s.name.startswith("__"):
                body = s.body
                k0 = 1 if is_doc(body[0]) else 0
                if len(body) - k0 >= 3:
                    k = k0 + (len(body) - k0) // 2
                    head, tail = body[:k], body[k:]
                    params = {a.arg for a in s.args.args + s.args.kwonlyargs} - {"self"}
                    defined = params | {x.id for b in head for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    used = {x.id for b in tail for x in ast.walk(b) if isinstance(x, ast.Name)}
                    bad = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in body for x in ast.walk(b))
                    sure = params | {t.id for b in head for t in (b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) and b.value else [])
                                     if isinstance(t, ast.Name)}
                    need = sorted(defined & used)
                    if not bad and set(need) <= sure:
                        h = "_finish_" + s.name.lstrip("_")
                        out.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None))
                        s.body = head + [ast.Return(ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(x) for x in need], []))]
            out.append(s)
        n.body = out
        return n


class MethodOrder(ast.NodeTransformer):
    """reverse the order of undecorated methods of every class"""
    def visit_ClassDef(self, n):
        idx = [i for i, s in enumerate(n.body) if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        ms = [n.body[i] for i in idx]
        for i, m in zip(idx, reversed(ms)):
            n.body[i] = m
        return n


class SelfAlias(T):
    """this = self at the start of methods"""
    def function(self, n):
        if n.args.args and n.args.args[0].arg == "self" and simple(n) and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in n.body for x in ast.walk(b)):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = "this"
            k = 1 if is_doc(n.body[0]) else 0
            n.body[k:k] = ps("this = self")
        return n


class Strip(T):
    """no annotations, no docstrings in functions"""
    def function(self, n):
        if len(n.body) > 1 and is_doc(n.body[0]):
            n.body = n.body[1:]
        for a in n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.returns = None
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if self.fn and n.value is not None:
            return ast.Assign([n.target], n.value)
        return n


class TryWrap(T):
    """try: BODY except Exception: raise"""
    def function(self, n):
        k = 1 if is_doc(n.body[0]) else 0
        if n.body[k:] and simple(n):
            n.body = n.body[:k] + [ast.Try(n.body[k:], [ast.ExceptHandler(name("Exception"), None, [ast.Raise()])], [], [])]
        return n


class Walrus(T):
    """x = E; if x: -> if (x := E):"""
    def visit_stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if (self.fn and isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name)
                    and isinstance(s.test, ast.Name) and s.test.id == p.targets[0].id):
                out.pop()
                s.test = ast.NamedExpr(p.targets[0], p.value)
            out.append(s)
        return out


class NotEq(T):
    """a == b -> not (a != b), a is None -> not (a is not None), swapped constants"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = n.ops[0]
            m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(o))
            if m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m()], n.comparators))
        return n


class SwapCmp(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class ElifNest(T):
    """conditional expressions -> statements"""
    def visit_stmts(self, body):
        out = []
        for s in body:
            if self.fn and isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [b]))
            else:
                out.append(s)
        return out


class TernaryUp(T):
    """if a: x = 1 else: x = 2 -> x = 1 if a else 2"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
                and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class GetDefault(T):
    """d.get(k, v) stays; d.get(k) -> d.get(k, None); d.pop(k, None) -> if-less del form kept; getattr(a, 'b') -> a.b"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 1 and not n.keywords:
            n.args.append(ast.Constant(None))
        return n


class Constants(ast.NodeTransformer):
    """literal strings and numbers in functions move to module level constants"""
    def visit_Module(self, n):
        self.consts = {}
        super().generic_visit(n)
        k = 0
        for i, s in enumerate(n.body):
            if is_doc(s) or isinstance(s, (ast.Import, ast.ImportFrom)):
                k = i + 1
            else:
                break
        n.body[k:k] = [ast.Assign([name(v, ast.Store())], ast.Constant(c)) for (_, c), v in self.consts.items()]
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_FunctionDef(self, n):
        for i, b in enumerate(n.body):
            if i == 0 and is_doc(b):
                continue
            n.body[i] = Inner(self).visit(b)
        return n


class Inner(ast.NodeTransformer):
    def __init__(self, o):
        self.o = o

    def visit_JoinedStr(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, (str, int, bytes)) and not isinstance(n.value, bool):
            k = (type(n.value), n.value)
            if k not in self.o.consts:
                self.o.consts[k] = f"_CONSTANT_{len(self.o.consts)}"
            return name(self.o.consts[k])
        return n


class RenamePrivate(ast.NodeTransformer):
    """private attributes, methods, functions and module variables get other names everywhere"""
    names = None

    def collect(self):
        root, tests = "/repo/src/psrpcore", ""
        for d, _, fs in os.walk("/repo/tests"):
            for f in fs:
                if f.endswith(".py"):
                    tests += open(os.path.join(d, f)).read()
        import re
        found, skip = set(), set()
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(".py"):
                    for x in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            found.add(x.attr)
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            found.add(x.name)
                        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            found.add(x.id)
                        elif isinstance(x, ast.arg):
                            skip.add(x.arg)
                        elif isinstance(x, ast.keyword):
                            skip.add(x.arg)
                        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                            skip |= set(re.findall(r"\w+", x.value))
        used = set(re.findall(r"\w+", tests)) | skip
        RenamePrivate.names = {n: "_other" + n for n in found if n.startswith("_") and not n.startswith("__") and n != "_" and not n.endswith("_")
                               and not n.startswith(("_process_", "_merge")) and n not in used}

    def visit_Module(self, n):
        if self.names is None:
            self.collect()
        return self.generic_visit(n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.names.get(n.attr, n.attr)
        return n

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.name = self.names.get(n.name, n.name)
        return n

    visit_ClassDef = visit_FunctionDef

    def visit_alias(self, n):
        n.name = self.names.get(n.name, n.name)
        return n


class GetAttrCall(T):
    """self.method(...) -> method = self.method; method(...)"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            c = getattr(s, "value", None)
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                v = fresh("call")
                out.append(ast.Assign([name(v, ast.Store())], c.func))
                c.func = name(v)
            out.append(s)
        return out


class ListTuple(T):
    """x in [..] -> x in {..} for enum members, [..] in for/in -> (..)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.List):
            n.comparators[0] = ast.Tuple(n.comparators[0].elts, ast.Load())
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.List):
            n.iter = ast.Tuple(n.iter.elts, ast.Load())
        return n


class WithLog(T):
    """a debug message at the start of every function"""
    def visit_Module(self, n):
        self.generic_visit(n)
        k = 0
        for i, s in enumerate(n.body[:3]):
            if is_doc(s) or isinstance(s, ast.ImportFrom) and s.module == "__future__":
                k = i + 1
        n.body[k:k] = ps("import logging as _logging\n_trace = _logging.getLogger(__name__)")
        return n

    def function(self, n):
        if n.name.startswith("__"):
            return n
        k = 1 if is_doc(n.body[0]) else 0
        n.body[k:k] = ps(f"_trace.debug('in %s', {n.name!r})")
        return n


class Copies(T):
    """iterate over a copy: for x in y -> for x in list(y)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.iter, (ast.Name, ast.Attribute)):
            n.iter = ast.Call(name("list"), [n.iter], [])
        return n


class Lambdas(T):
    """lambda -> local function where it is assigned or an argument of a statement"""
    def visit_stmts(self, body):
        if not self.fn:
            return body
        out = []
        for s in body:
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
                for x in ast.walk(s):
                    for f in ("args",):
                        if isinstance(x, ast.Call):
                            for i, a in enumerate(x.args):
                                if isinstance(a, ast.Lambda):
                                    v = fresh("function")
                                    out.append(ast.FunctionDef(v, a.args, [ast.Return(a.body)], [], None))
                                    x.args[i] = name(v)
                            for k in x.keywords:
                                if isinstance(k.value, ast.Lambda):
                                    v = fresh("function")
                                    out.append(ast.FunctionDef(v, k.value.args, [ast.Return(k.value.body)], [], None))
                                    k.value = name(v)
            out.append(s)
        return out


class Positional(ast.NodeTransformer):
    """keyword arguments of dataclass-free calls of the module's own functions stay; dict(...) displays: {'a': 1} -> dict(a=1)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


KINDS = {c.__name__: c for c in (ReturnVar, Nop, ElseAfterReturn, NoElseAfterReturn, FlipIf, SplitAnd, Guard, ForWhile, ForIndex, CompLoop, LoopComp, InChain,
                                 IsinstanceSplit, KwReverse, Format, Concat, AugAssign, TestVar, ArgVar, RenameLocals, Delegate, SplitTail, MethodOrder,
                                 SelfAlias, Strip, TryWrap, Walrus, NotEq, SwapCmp, ElifNest, TernaryUp, GetDefault, Constants, RenamePrivate, GetAttrCall, ListTuple, WithLog,
                                 Copies, Lambdas, Positional)}
PY = "/opt/venv/bin/python"


def apply(kind, w):
    changed = 0
    for d, _, fs in os.walk(os.path.join(w, "src", "psrpcore")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            before = ast.unparse(t)
            for k in kind.split("+"):
                t = ast.fix_missing_locations(KINDS[k]().visit(t))
            after = ast.unparse(t)
            if after != before:
                changed += 1
                open(p, "w").write(after)
    return changed


def one(kind, checks):
    w = f"/tmp/refw/{kind}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    out = []
    try:
        n = apply(kind, w)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(w, "src"), PYTHONHASHSEED="0")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA"], cwd=w, capture_output=True, text=True, env=env, timeout=300)
        ok = {N(l.split(" ", 1)[1].split(" - ")[0]) for l in r.stdout.splitlines() if l.startswith("PASSED ")}
        miss = [t for t in STABLE if N(t) not in ok]
        out.append(f"## {kind}: {n} files changed, {len(miss)} stable tests fail {miss[:2]}")
        if miss:
            out.append(r.stdout[-800:])
        for c in checks:
            e = dict(os.environ, PSA_ROOT=os.path.join(w, "src"), PSA_EVIDENCE=os.path.join(w, "ev"))
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], capture_output=True, text=True, env=e, timeout=900)
            except subprocess.TimeoutExpired:
                out.append(f"   {c}: TIMEOUT")
                continue
            last = [l for l in r.stdout.splitlines() if "obligations" in l]
            if r.returncode or not last or " 0 undecided" not in last[-1]:
                ls = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
                out.append(f"   {c}: exit {r.returncode} " + (last[-1] if last else r.stderr[-300:]))
                out += ["        " + l[:260] for l in ls[:3]] if r.returncode else []
                out += ["        " + l[:260] for l in r.stdout.splitlines() if l.startswith("undecided")][:3]
    except Exception as e:
        out.append("  ERROR %r" % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = [a for a in args if a[0] == "C" and a[1:].isdigit()] or [f"C{i:02d}" for i in [*range(1, 26), 28]]
    kinds = [a for a in args if a.split("+")[0] in KINDS] or list(KINDS)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda k: one(k, checks), kinds):
            print(r, flush=True)
