#!/usr/bin/env python3
"""Behaviour-preserving rewritings of the whole library, on which every check has to stay quiet.

usage: rewrite.py KIND DEST    copy /repo to DEST and rewrite the copy; run the checks with TFTB_REPO=DEST
KIND: commute   a*b -> b*a, a+b -> b+a (numbers only)
      recip     a/b -> a*(1.0/b) where b is not a literal or name of an integer count
      square    x**2 -> x*x
      euler     np.exp(1j*...) through cosine and sine
      negsub    a-b -> -(b-a)
      fft       Fourier transforms by SciPy on a reversed, conjugated input
      sums      np.sum through a different summation order
      helper    every function body moved to a private helper with the same arguments
      while     for i in range(...) written as a while loop
      ifnot     if a: x else: y -> if not a: y else: x
      temp      every returned expression first stored in a local name; every call argument too
"""
import ast
import os
import shutil
import sys


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        bad = (ast.List, ast.Tuple, ast.JoinedStr)
        if isinstance(n.op, (ast.Mult, ast.Add)) and not isinstance(n.left, bad) and not isinstance(n.right, bad) \
                and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n


class Recip(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not isinstance(n.right, ast.Constant):
            n.op = ast.Mult()
            n.right = ast.BinOp(ast.Constant(1.0), ast.Div(), n.right)
        return n


class Square(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class NegSub(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))
        return n


class Euler(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "exp" and any(
                isinstance(x, ast.Constant) and isinstance(x.value, complex) for x in ast.walk(n)) and len(n.args) == 1:
            return ast.Call(ast.Name("_rw_exp", ast.Load()), n.args, [])
        return n


class FFT(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("fft", "ifft") and ast.unparse(n.func) in ("np.fft.fft", "np.fft.ifft"):
            n.func = ast.Name("_rw_" + n.func.attr, ast.Load())
        return n


class Sums(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "np.sum":
            n.func = ast.Name("_rw_sum", ast.Load())
        return n


class While(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "range" and isinstance(n.target, ast.Name) \
                and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            While.k += 1
            it = "_rw_it%d" % While.k
            return [ast.parse("%s = list(%s)" % (it, ast.unparse(n.iter))).body[0],
                    ast.While(ast.Name(it, ast.Load()), [ast.parse("%s = %s.pop(0)" % (n.target.id, it)).body[0]] + n.body, [])]
        return n


class IfNot(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Temp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("_rw_out", ast.Store())], n.value, lineno=1), ast.Return(ast.Name("_rw_out", ast.Load()))]


class Helper(ast.NodeTransformer):
    def visit_Module(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.kwarg and not f.decorator_list:
                a = f.args
                names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                body = f.body[len(doc):]
                out.append(ast.FunctionDef("_rw_" + f.name, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []),
                                           body, [], lineno=1))
                f.body = doc + [ast.parse("return _rw_%s(%s)" % (f.name, ", ".join(names))).body[0]]
            out.append(f)
        n.body = out
        return n


PRE = '''
def _rw_exp(z):
    z = np.asarray(z)
    if not np.iscomplexobj(z):
        return np.exp(z)
    r = np.exp(z.real) * (np.cos(z.imag) + 1j * np.sin(z.imag))
    return r if r.ndim else r[()]


def _rw_fft(x, n=None, axis=-1):
    import scipy.fft
    return np.conj(scipy.fft.ifft(np.conj(np.asarray(x)), n, axis)) * (n if n is not None else np.shape(x)[axis])


def _rw_ifft(x, n=None, axis=-1):
    import scipy.fft
    return np.conj(scipy.fft.fft(np.conj(np.asarray(x)), n, axis)) / (n if n is not None else np.shape(x)[axis])


def _rw_sum(x, axis=None, **k):
    x = np.asarray(x)
    if axis is None:
        return np.sum(x.ravel()[::-1], **k)
    return np.sum(np.flip(x, axis), axis=axis, **k)

'''
KINDS = dict(commute=Commute, recip=Recip, square=Square, negsub=NegSub, euler=Euler, fft=FFT, sums=Sums, helper=Helper, ifnot=IfNot,
             temp=Temp)
KINDS["while"] = While


def main(kind, dest):
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree("/repo", dest, ignore=shutil.ignore_patterns(".git", "__pycache__", "build"))
    for d, _, fs in os.walk(os.path.join(dest, "tftb")):
        if "tests" in d:
            continue
        for f in fs:
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.join(d, f)
                t = ast.fix_missing_locations(KINDS[kind]().visit(ast.parse(open(p).read())))
                s = ast.unparse(t)
                if "import numpy as np" in s:
                    s = s.replace("import numpy as np\n", "import numpy as np\n" + PRE, 1)
                elif "_rw_" in s and kind not in ("helper", "while", "temp"):
                    s = s + "\n"
                open(p, "w").write(s + "\n")


main(*sys.argv[1:3])
