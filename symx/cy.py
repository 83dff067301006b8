"""Cython sources -> Python with bounds-checked typed memoryviews.

The .pyx is parsed with Cython's own parser; every construct not understood
raises Unsupported.  BLAS/LAPACK calls go to contracts in cyrt."""
import ast

from .core import Unsupported

BIN = {"+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^", "@"}
CINT = {"int", "long", "short", "char", "size_t", "Py_ssize_t", "bint", "unsigned", "ssize_t"}
CFLT = {"double", "float"}


def translate(path):
    from Cython.Compiler.TreeFragment import parse_from_strings

    with open(path) as f:
        src = f.read()
    name = path.rsplit("/", 1)[1].split(".")[0]
    tree = parse_from_strings(name, src)
    t = Tr(src)
    try:
        out = t.module(tree)
    except Exception as e:
        raise Unsupported("%s: %s: %s" % (name, type(e).__name__, e))
    text = "\n".join(out) + "\n"
    return text, ast.parse(text, path)


class Tr:
    def __init__(self, src):
        self.scal = {}
        self.mvs = {}
        self.ret = None

    def module(self, tree):
        out = ["from __cyrt import *", "import __cyrt as __rt"]
        for s in self.flat(tree.body):
            out += self.stat(s, 0)
        return out

    def flat(self, n):
        if type(n).__name__ == "StatListNode":
            for s in n.stats:
                yield from self.flat(s)
        else:
            yield n

    def block(self, n, d):
        out = []
        for s in self.flat(n):
            out += self.stat(s, d)
        return out or ["    " * d + "pass"]

    # ------------------------------------------------------------ types
    def mvspec(self, bt):
        axes = []
        for a in bt.axes:
            st = a.step
            if type(st).__name__ == "IntNode" and str(st.value) == "1":
                axes.append("1")
            else:
                axes.append(":")
        return (bt.base_type_node.name, getattr(bt.base_type_node, "longness", 0), tuple(axes))

    def ctype(self, bt):
        k = type(bt).__name__
        if k == "MemoryViewSliceTypeNode":
            return ("mv",) + self.mvspec(bt)
        if k == "CSimpleBaseTypeNode":
            nm = bt.name
            if nm is None:
                return ("obj",)
            if getattr(bt, "is_basic_c_type", False):
                if nm in CFLT:
                    return ("double",) if nm == "double" else ("cfloat",)
                if nm == "void":
                    return ("void",)
                return ("int",)
            if nm in ("dict", "list", "tuple", "str", "object"):
                return ("obj",)
            if nm in CINT:
                return ("int",)
            return ("obj",)
        if k == "TemplatedTypeNode":
            return ("obj",)
        raise Unsupported("cython type " + k)

    def conv(self, name, ty, e):
        if ty[0] == "mv":
            return "__rt.mv(%s, %r, %r, %r, %r)" % (e, name, ty[1], ty[2], ty[3])
        if ty[0] == "int":
            return "__rt.cint(%s)" % e
        if ty[0] == "double":
            return "__rt.cdouble(%s)" % e
        if ty[0] == "cfloat":
            return "__rt.cfloat(%s)" % e
        return e

    def decl_name(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name, d.default, None
        if k == "CPtrDeclaratorNode":
            n, dv, _ = self.decl_name(d.base)
            return n, dv, "ptr"
        if k == "CArrayDeclaratorNode":
            n, dv, _ = self.decl_name(d.base)
            return n, dv, ("arr", d.dimension)
        raise Unsupported("declarator " + k)

    # ------------------------------------------------------- statements
    def stat(self, n, d):
        p = "    " * d
        k = type(n).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("cython statement " + k)
        return [p + x for x in m(n, d)] if k not in BLOCKS else m(n, d)

    def s_PassStatNode(self, n, d):
        return ["pass"]

    def s_CImportStatNode(self, n, d):
        return ["pass"]

    def s_CTypeDefNode(self, n, d):
        return ["pass"]

    def s_FromCImportStatNode(self, n, d):
        out = []
        mod = n.module_name
        lvl = getattr(n, "relative_level", 0) or 0
        for it in n.imported_names:
            nm, al = it[1], it[2]
            if lvl:
                out.append("from %s%s import %s as %s" % ("." * lvl, mod, nm, al or nm))
            elif mod in ("libc.math", "scipy.linalg.cython_blas", "scipy.linalg.cython_lapack", "libc.stdlib", "libc.string"):
                out.append("%s = __rt.get(%r)" % (al or nm, nm))
            elif mod in ("cython", "numpy"):
                out.append("pass")
            else:
                raise Unsupported("cimport from " + mod)
        return out

    def s_FromImportStatNode(self, n, d):
        mod = n.module.module_name.value
        lvl = n.module.level or 0
        return [
            "from %s%s import %s as %s" % ("." * max(lvl, 0), mod, name, tgt.name)
            for name, tgt in n.items
        ]

    def s_SingleAssignmentNode(self, n, d):
        if type(n.rhs).__name__ == "ImportNode":
            mod = n.rhs.module_name.value
            if getattr(n.rhs, "is_import_as_name", False):
                return ["import %s as %s" % (mod, n.lhs.name)]
            return ["import %s" % mod]
        return self.pre_post(n.rhs, lambda: self.assign(n.lhs, self.e(n.rhs)))

    def assign(self, lhs, e):
        k = type(lhs).__name__
        if k == "NameNode":
            ty = self.mvs.get(lhs.name) or self.scal.get(lhs.name)
            if ty:
                e = self.conv(lhs.name, ty, e)
            return ["%s = %s" % (lhs.name, e)]
        return ["%s = %s" % (self.e(lhs), e)]

    def s_CascadedAssignmentNode(self, n, d):
        out = ["__t = %s" % self.e(n.rhs)]
        for l in n.lhs_list:
            out += self.assign(l, "__t")
        return out

    def s_InPlaceAssignmentNode(self, n, d):
        l = self.e(n.lhs)
        e = "(%s) %s (%s)" % (l, n.operator, self.e(n.rhs))
        return self.assign(n.lhs, e)

    def s_ExprStatNode(self, n, d):
        return self.pre_post(n.expr, lambda: [self.e(n.expr)])

    def pre_post(self, expr, body):
        refs = []
        self.collect_refs(expr, refs)
        pre = ["__r_%s = __rt.Ref(%s)" % (r, r) for r in refs]
        self.refs = set(refs)
        out = body()
        self.refs = set()
        post = ["%s = __r_%s.v" % (r, r) for r in refs]
        return pre + out + post

    def collect_refs(self, n, out):
        if n is None or isinstance(n, (str, int, float)):
            return
        if type(n).__name__ == "AmpersandNode" and type(n.operand).__name__ == "NameNode":
            nm = n.operand.name
            if nm in self.scal and nm not in out:
                out.append(nm)
            return
        for ca in n.child_attrs or []:
            v = getattr(n, ca, None)
            if isinstance(v, list):
                for x in v:
                    self.collect_refs(x, out)
            elif v is not None:
                self.collect_refs(v, out)

    def s_CVarDefNode(self, n, d):
        ty = self.ctype(n.base_type)
        out = []
        for dn in n.declarators:
            name, dv, kind = self.decl_name(dn)
            if kind == "ptr":
                raise Unsupported("pointer variable")
            if kind:
                dt = "double" if ty[0] == "double" else "int"
                out.append("%s = __rt.carray(%s, %r)" % (name, self.e(kind[1]), dt))
                continue
            if ty[0] == "mv":
                self.mvs[name] = ty
            elif ty[0] in ("int", "double", "cfloat"):
                self.scal[name] = ty
            if dv is not None:
                out += self.pre_post(dv, lambda: ["%s = %s" % (name, self.conv(name, ty, self.e(dv)))])
            elif ty[0] in ("int", "double", "cfloat"):
                out.append("%s = __rt.UNINIT" % name)
        return out or ["pass"]

    def s_ReturnStatNode(self, n, d):
        if n.value is None:
            return ["return"]
        e = self.e(n.value)
        if self.ret and self.ret[0] in ("int", "double"):
            e = self.conv("return", self.ret, e)
        return ["return %s" % e]

    def s_RaiseStatNode(self, n, d):
        if n.exc_type is None:
            return ["raise"]
        e = self.e(n.exc_type)
        if n.exc_value is not None:
            e = "%s(%s)" % (e, self.e(n.exc_value))
        return ["raise %s" % e]

    def s_ContinueStatNode(self, n, d):
        return ["continue"]

    def s_BreakStatNode(self, n, d):
        return ["break"]

    def s_AssertStatNode(self, n, d):
        return ["assert %s" % self.e(n.condition)]

    def s_GlobalNode(self, n, d):
        return ["global " + ", ".join(n.names)]

    def s_DelStatNode(self, n, d):
        return ["del " + ", ".join(self.e(a) for a in n.args)]

    # block statements return fully indented lines
    def s_IfStatNode(self, n, d):
        p = "    " * d
        out = []
        kw = "if"
        for c in n.if_clauses:
            out.append("%s%s %s:" % (p, kw, self.e(c.condition)))
            out += self.block(c.body, d + 1)
            kw = "elif"
        if n.else_clause is not None:
            out.append(p + "else:")
            out += self.block(n.else_clause, d + 1)
        return out

    def s_WhileStatNode(self, n, d):
        p = "    " * d
        out = ["%swhile %s:" % (p, self.e(n.condition) if n.condition is not None else "True")]
        out += self.block(n.body, d + 1)
        if n.else_clause is not None:
            out.append(p + "else:")
            out += self.block(n.else_clause, d + 1)
        return out

    def s_ForInStatNode(self, n, d):
        p = "    " * d
        seq = n.iterator.sequence
        out = ["%sfor %s in %s:" % (p, self.e(n.target), self.e(seq))]
        out += self.block(n.body, d + 1)
        if n.else_clause is not None:
            out.append(p + "else:")
            out += self.block(n.else_clause, d + 1)
        return out

    def s_ForFromStatNode(self, n, d):
        raise Unsupported("for-from loop")

    def s_GILStatNode(self, n, d):
        p = "    " * d
        return [p + "if True:"] + self.block(n.body, d + 1)

    def s_TryExceptStatNode(self, n, d):
        p = "    " * d
        out = [p + "try:"] + self.block(n.body, d + 1)
        for c in n.except_clauses:
            if c.pattern:
                pat = ", ".join(self.e(x) for x in c.pattern)
                tgt = " as %s" % self.e(c.target) if c.target is not None else ""
                out.append("%sexcept (%s)%s:" % (p, pat, tgt))
            else:
                out.append(p + "except:")
            out += self.block(c.body, d + 1)
        if n.else_clause is not None:
            out += [p + "else:"] + self.block(n.else_clause, d + 1)
        return out

    def s_TryFinallyStatNode(self, n, d):
        p = "    " * d
        return [p + "try:"] + self.block(n.body, d + 1) + [p + "finally:"] + self.block(n.finally_clause, d + 1)

    def func(self, name, args, body, d, ret):
        p = "    " * d
        old = (self.scal, self.mvs, self.ret)
        self.scal, self.mvs, self.ret = {}, {}, ret
        names, conv = [], []
        for nm, ty, dv in args:
            names.append(nm if dv is None else "%s=%s" % (nm, dv))
            if ty[0] == "mv":
                self.mvs[nm] = ty
            elif ty[0] in ("int", "double", "cfloat"):
                self.scal[nm] = ty
            c = self.conv(nm, ty, nm)
            if c != nm:
                conv.append("%s    %s = %s" % (p, nm, c))
        out = ["%sdef %s(%s):" % (p, name, ", ".join(names))] + conv
        out += self.block(body, d + 1)
        self.scal, self.mvs, self.ret = old
        return out

    def s_CFuncDefNode(self, n, d):
        dec = n.declarator
        ret = self.ctype(n.base_type)
        while type(dec).__name__ == "CPtrDeclaratorNode":
            dec = dec.base
        args = []
        for a in dec.args:
            nm, dv, kind = self.decl_name(a.declarator)
            ty = self.ctype(a.base_type)
            if kind == "ptr":
                ty = ("obj",)
            if not nm:
                # "cdef f(name)": the identifier is parsed as the type
                nm, ty = a.base_type.name, ("obj",)
            args.append((nm, ty, self.e(a.default) if a.default is not None else None))
        return self.func(dec.base.name, args, n.body, d, ret)

    def s_DefNode(self, n, d):
        args = []
        for a in n.args:
            nm, dv, kind = self.decl_name(a.declarator)
            ty = self.ctype(a.base_type)
            if not nm:
                nm, ty = a.base_type.name, ("obj",)
            args.append((nm, ty, self.e(a.default) if a.default is not None else None))
        return self.func(n.name, args, n.body, d, None)

    # ------------------------------------------------------ expressions
    refs = set()

    def e(self, n):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            op = getattr(n, "operator", None)
            if hasattr(n, "operand1") and op in BIN:
                return "(%s %s %s)" % (self.e(n.operand1), op, self.e(n.operand2))
            raise Unsupported("cython expression " + k)
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return str(n.value).rstrip("lLuU")

    def e_FloatNode(self, n):
        return str(n.value)

    def e_BoolNode(self, n):
        return "True" if n.value else "False"

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(n.value.decode() if isinstance(n.value, bytes) else str(n.value))

    def e_StringNode(self, n):
        return repr(str(n.value))

    def e_CharNode(self, n):
        return repr(str(n.value))

    def e_AttributeNode(self, n):
        return "%s.%s" % (self.e(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.e(n.base), self.sub(n.index))

    def sub(self, i):
        k = type(i).__name__
        if k == "TupleNode":
            return ", ".join(self.sub(a) for a in i.args)
        if k == "SliceNode":
            f = lambda x: "" if type(x).__name__ == "NoneNode" else self.e(x)
            s = "%s:%s" % (f(i.start), f(i.stop))
            st = f(i.step)
            return s + (":" + st if st else "")
        return self.e(i)

    def e_SliceIndexNode(self, n):
        f = lambda x: "" if x is None else self.e(x)
        return "%s[%s:%s]" % (self.e(n.base), f(n.start), f(n.stop))

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        a = [self.e(x) for x in n.positional_args.args]
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ != "DictNode":
                raise Unsupported("**kwargs")
            for it in kw.key_value_pairs:
                a.append("%s=%s" % (it.key.value, self.e(it.value)))
        return "%s(%s)" % (self.e(n.function), ", ".join(a))

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return "(+%s)" % self.e(n.operand)

    def e_TildeNode(self, n):
        return "(~%s)" % self.e(n.operand)

    def e_NotNode(self, n):
        return "(not %s)" % self.e(n.operand)

    def e_BoolBinopNode(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_PrimaryCmpNode(self, n):
        op = {"not_in": "not in", "is_not": "is not"}.get(n.operator, n.operator)
        s = "%s %s %s" % (self.e(n.operand1), op, self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % ({"not_in": "not in", "is_not": "is not"}.get(c.operator, c.operator), self.e(c.operand2))
            c = c.cascade
        return "(%s)" % s

    def e_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(n.condition if hasattr(n, "condition") else n.test), self.e(n.false_val))

    def e_PowNode(self, n):
        return "__rt.cpow(%s, %s)" % (self.e(n.operand1), self.e(n.operand2))

    def e_TupleNode(self, n):
        return "(%s,)" % ", ".join(self.e(a) for a in n.args) if n.args else "()"

    def e_ListNode(self, n):
        return "[%s]" % ", ".join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return "{%s}" % ", ".join("%s: %s" % (self.e(i.key), self.e(i.value)) for i in n.key_value_pairs)

    def e_TypecastNode(self, n):
        ty = self.ctype(n.base_type)
        nm, dv, kind = self.decl_name(n.declarator)
        e = self.e(n.operand)
        if kind:
            return e
        if ty[0] == "int":
            return "__rt.ccastint(%s)" % e
        return self.conv("cast", ty, e)

    def e_AmpersandNode(self, n):
        o = n.operand
        k = type(o).__name__
        if k == "NameNode":
            if o.name in self.scal:
                return "__r_" + o.name
            return o.name
        if k == "IndexNode":
            return "__rt.ptr(%s, (%s,))" % (self.e(o.base), self.sub(o.index))
        raise Unsupported("address of " + k)


BLOCKS = {
    "IfStatNode", "WhileStatNode", "ForInStatNode", "ForFromStatNode", "GILStatNode", "TryExceptStatNode",
    "TryFinallyStatNode", "CFuncDefNode", "DefNode",
}
