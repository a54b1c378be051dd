"""Parser for the subset of textual LLVM IR (LLVM 18) that clang emits for the harnesses.

It produces Module / Func / Block / Instr objects.  Anything it does not know raises
Unsupported, which the drivers treat as "outside the verifier's reach" - never as a verdict.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elems", "n", "name", "packed", "_sz", "_offs")

    def __init__(self, k, w=0, elems=None, n=0, name=None, packed=False):
        self.k, self.w, self.elems, self.n, self.name, self.packed = k, w, elems, n, name, packed
        self._sz = None
        self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.elems or []))
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
LABEL = Ty("label")
META = Ty("metadata")
FLOATS = {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty("int", w)
    return _ints[w]


def align_of(t):
    if t.k == "int":
        b = (t.w + 7) // 8
        a = 1
        while a < b and a < 16:
            a *= 2
        return min(a, 16)
    if t.k == "ptr":
        return 8
    if t.k == "fp":
        return min(t.w, 16)
    if t.k == "arr":
        return align_of(t.elems[0])
    if t.k == "vec":
        return size_of(t)
    if t.k == "struct":
        if t.packed:
            return 1
        return max([align_of(e) for e in t.elems] or [1])
    raise Unsupported("align of %r" % t)


def size_of(t):
    if t._sz is not None:
        return t._sz
    if t.k == "int":
        b = (t.w + 7) // 8
        a = align_of(t)
        r = (b + a - 1) // a * a
    elif t.k == "ptr":
        r = 8
    elif t.k == "fp":
        r = t.w
    elif t.k in ("arr", "vec"):
        r = t.n * size_of(t.elems[0])
    elif t.k == "struct":
        o = 0
        offs = []
        for e in t.elems:
            a = 1 if t.packed else align_of(e)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(e)
        a = align_of(t)
        o = (o + a - 1) // a * a
        t._offs = offs
        r = o
    else:
        raise Unsupported("size of %r" % t)
    t._sz = r
    return r


def field_offs(t):
    size_of(t)
    return t._offs


# ---------------------------------------------------------------- IR objects
class Instr:
    __slots__ = ("op", "dst", "ty", "a", "flags", "dbg", "text", "x")

    def __init__(self, op, dst, ty, a, flags=(), x=None):
        self.op, self.dst, self.ty, self.a, self.flags, self.x = op, dst, ty, a, flags, x
        self.dbg = None
        self.text = None


class Block:
    __slots__ = ("name", "phis", "ins", "succs", "is_header", "loop")

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succs = []
        self.is_header = False
        self.loop = None


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None


class Global:
    __slots__ = ("name", "ty", "init", "const")

    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


# operands are tuples: ('reg',name) ('int',v) ('null',) ('undef',) ('global',name) ('cexpr',...)
# ('agg',[ (ty,op)...]) ('zero',) ('str',bytes) ('fp',text)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("lex: " + s[i:i + 40])
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly",
               "readnone", "writeonly", "returned", "immarg", "nofree", "noreturn", "swiftself",
               "nest", "allocptr", "allocalign", "dead_on_unwind", "writable", "inalloca"}
FN_PRE = {"dso_local", "dso_preemptable", "internal", "private", "linkonce_odr", "linkonce", "weak",
          "weak_odr", "external", "available_externally", "hidden", "protected", "default",
          "unnamed_addr", "local_unnamed_addr", "common", "extern_weak", "fastcc", "ccc", "coldcc"}


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def pv(self, k=0):
        return self.peek(k)[1]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.pv() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.pv() != v:
            raise Unsupported("expected %r got %r in %s" % (v, self.t[self.i:self.i + 6], ""))
        self.i += 1

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "void":
                t = VOID
            elif v == "ptr":
                t = PTR
                if self.pv() == "addrspace":
                    raise Unsupported("addrspace")
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v in FLOATS:
                t = Ty("fp", FLOATS[v], name=v)
            elif v == "opaque":
                t = Ty("opaque")
            elif re.fullmatch(r"i\d+", v):
                t = INT(int(v[1:]))
            else:
                raise Unsupported("type " + v)
        elif k == "loc":
            nm = v[1:]
            if nm not in self.m.types:
                raise Unsupported("unknown type " + v)
            t = self.m.get_type(nm)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", elems=[e], n=n)
        elif v == "{":
            t = self.struct_body(False)
        elif v == "<":
            if self.pv() == "{":
                self.next()
                t = self.struct_body(True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", elems=[e], n=n)
        else:
            raise Unsupported("type tok %r" % v)
        # function types:  ty (args)
        if self.pv() == "(" and t.k != "label":
            save = self.i
            try:
                self.next()
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    self.type()
                    self.accept(",")
                return Ty("fn", elems=[t])
            except Exception:
                self.i = save
        return t

    def struct_body(self, packed):
        es = []
        while not self.accept("}"):
            es.append(self.type())
            self.accept(",")
        return Ty("struct", elems=es, packed=packed)

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in ("align",):
                self.i += 1
                if self.pv() == "(":
                    self.paren_skip()
                else:
                    self.i += 1
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
                       "elementtype", "memory", "range", "initializes", "captures", "preallocated"):
                self.i += 1
                self.paren_skip()
            elif k == "str" and not v.startswith("c"):
                self.i += 1
                if self.accept("="):
                    self.i += 1
            else:
                break

    def paren_skip(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def value(self, ty):
        k, v = self.peek()
        if k == "loc":
            self.i += 1
            return ("reg", v[1:])
        if k == "glob":
            self.i += 1
            return ("global", v[1:].strip('"'))
        if k == "num":
            self.i += 1
            if ty.k == "fp":
                return ("fp", v)
            return ("int", int(v) & ((1 << ty.w) - 1))
        if v in ("true", "false"):
            self.i += 1
            return ("int", 1 if v == "true" else 0)
        if v == "null":
            self.i += 1
            return ("null",)
        if v in ("undef", "poison"):
            self.i += 1
            return ("undef",)
        if v == "zeroinitializer":
            self.i += 1
            return ("zero",)
        if v == "none":
            self.i += 1
            return ("undef",)
        if k == "str" and v.startswith("c"):
            self.i += 1
            return ("str", unescape(v[2:-1]))
        if v in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[v]
            self.i += 1
            packed = False
            if v == "<" and self.pv() == "{":
                self.i += 1
                packed = True
                close = "}"
            es = []
            while not self.accept(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.accept(",")
            if packed:
                self.expect(">")
            return ("agg", es)
        if k == "word":
            op = v
            if op == "getelementptr":
                self.i += 1
                while self.pv() in ("inbounds", "nuw", "nusw", "inrange"):
                    self.i += 1
                    if self.pv() == "(" and self.t[self.i - 1][1] == "inrange":
                        self.paren_skip()
                self.expect("(")
                bt = self.type()
                self.expect(",")
                args = []
                while True:
                    self.accept("inrange")
                    t = self.type()
                    args.append((t, self.value(t)))
                    if self.accept(")"):
                        break
                    self.expect(",")
                return ("cgep", bt, args)
            if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.i += 1
                self.expect("(")
                t = self.type()
                val = self.value(t)
                self.expect("to")
                t2 = self.type()
                self.expect(")")
                return ("ccast", op, t, val, t2)
            if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
                self.i += 1
                while self.pv() in ("nsw", "nuw", "exact"):
                    self.i += 1
                self.expect("(")
                t = self.type()
                a = self.value(t)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                return ("cbin", op, t, a, b)
        if ty.k == "metadata":
            # skip anything
            self.i += 1
            if self.pv() == "(":
                self.paren_skip()
            return ("meta",)
        raise Unsupported("value %r" % (self.t[self.i:self.i + 5],))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp",
         "uitofp", "fpext", "fptrunc"}


class Module:
    def __init__(self, text):
        self.types = {}
        self._rt = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.dbg = {}
        self._parse(text)

    def get_type(self, nm):
        if nm in self._rt:
            return self._rt[nm]
        t = Ty("struct", elems=[], name=nm)
        self._rt[nm] = t
        body = self.types[nm]
        p = P(self, tokenize(body))
        r = p.type()
        t.k, t.elems, t.packed = r.k, r.elems, r.packed
        return t

    def _parse(self, text):
        lines = text.split("\n")
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                a, b = ln.split(" = type ", 1)
                self.types[a[1:]] = b
        i = 0
        glob_lines = []
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("@"):
                glob_lines.append(ln)
            elif ln.startswith("declare"):
                m = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith("!") and " = " in ln:
                self._meta(ln)
            i += 1
        for ln in glob_lines:
            self._glob(ln)

    def _meta(self, ln):
        m = re.match(r"!(\d+) = (distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock\w*)\((.*)\)", ln)
        if m:
            self.dbg[m.group(1)] = (m.group(3), m.group(4))

    def src_line(self, dbg):
        """file:line (innermost inlined frame) for a !dbg id"""
        if dbg is None or dbg not in self.dbg:
            return None
        k, b = self.dbg[dbg]
        line = re.search(r"line: (\d+)", b)
        scope = re.search(r"scope: !(\d+)", b)
        f = None
        s = scope.group(1) if scope else None
        while s in self.dbg:
            kk, bb = self.dbg[s]
            mf = re.search(r"file: !(\d+)", bb)
            if mf and mf.group(1) in self.dbg:
                mm = re.search(r'filename: "([^"]*)"', self.dbg[mf.group(1)][1])
                f = mm.group(1) if mm else None
                break
            ms = re.search(r"scope: !(\d+)", bb)
            if not ms:
                break
            s = ms.group(1)
        if f:
            f = f.split("include/strf/")[-1].split("/")[-1] if "include/strf/" not in f else f.split("include/")[-1]
        return "%s:%s" % (f, line.group(1) if line else "?")

    def _glob(self, ln):
        ln = re.sub(r", !dbg !\d+", "", ln)
        ln = re.sub(r", comdat(\([^)]*\)|\b)", "", ln)
        toks = tokenize(ln)
        p = P(self, toks)
        name = p.next()[1][1:].strip('"')
        p.expect("=")
        external = False
        const = None
        while True:
            v = p.pv()
            if v in FN_PRE or v in ("thread_local", "externally_initialized", "addrspace"):
                if v == "external":
                    external = True
                p.i += 1
                if v == "addrspace" or (v == "thread_local" and p.pv() == "("):
                    p.paren_skip()
            elif v in ("global", "constant"):
                const = v == "constant"
                p.i += 1
                break
            elif v in ("alias", "ifunc"):
                p.i += 1
                t = p.type()
                p.expect(",")
                t2 = p.type()
                self.globals[name] = Global(name, t, ("alias", p.value(t2)), True)
                return
            else:
                raise Unsupported("global " + ln[:80])
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        self.globals[name] = Global(name, t, init, const)

    def _func(self, hdr, body):
        hdr = re.sub(r" prologue .*| personality .*", " {", hdr)
        toks = tokenize(hdr)
        p = P(self, toks)
        p.expect("define")
        while True:
            if p.pv() in FN_PRE:
                p.i += 1
            else:
                p.skip_attrs()
                if p.pv() not in FN_PRE:
                    break
        # return type: avoid the fn-type interpretation
        ret = self._ret_type(p)
        name = p.next()[1][1:].strip('"')
        p.expect("(")
        params = []
        idx = 0
        while not p.accept(")"):
            if p.accept("..."):
                continue
            t = p.type()
            p.skip_attrs()
            if p.peek()[0] == "loc":
                nm = p.next()[1][1:]
            else:
                nm = str(idx)
            idx += 1
            params.append((t, nm))
            p.accept(",")
        f = Func(name, ret, params)
        self.funcs[name] = f
        cur = None
        k = 0
        while k < len(body):
            ln = body[k]
            if not ln.strip():
                k += 1
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur.name
                k += 1
                continue
            if cur is None:
                cur = Block(str(len(params)))
                f.blocks[cur.name] = cur
                f.entry = cur.name
            # multi-line switch
            if ln.lstrip().startswith("switch") and ln.rstrip().endswith("["):
                k += 1
                while body[k].strip() and not body[k].strip().startswith("]"):
                    ln += " " + body[k].strip()
                    k += 1
                ln += " " + body[k].strip()
            ins = self._instr(ln)
            if ins is not None:
                (cur.phis if ins.op == "phi" else cur.ins).append(ins)
            k += 1
        self._cfg(f)

    def _ret_type(self, p):
        save = p.i
        t = p.type()
        return t

    def _instr(self, ln):
        if ln.lstrip().startswith("#dbg"):
            return None
        dbg = None
        m = re.search(r", !dbg !(\d+)", ln)
        if m:
            dbg = m.group(1)
        # strip trailing metadata
        c = ln
        mm = re.search(r", ![a-zA-Z]", c)
        if mm and "metadata" not in c[:mm.start()]:
            c = c[:mm.start()]
        elif mm:
            c = re.sub(r"(, ![a-zA-Z.]+ ![\d]+)+$", "", c)
        toks = tokenize(c)
        p = P(self, toks)
        dst = None
        if p.peek()[0] == "loc" and p.pv(1) == "=":
            dst = p.next()[1][1:].strip('"')
            p.next()
        op = p.next()[1]
        ins = self._body(p, op, dst)
        if ins is not None:
            ins.dbg = dbg
            ins.text = ln.strip()
        return ins

    def _body(self, p, op, dst):
        if op in BINOPS:
            fl = set()
            while p.pv() in ("nsw", "nuw", "exact", "disjoint"):
                fl.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr(op, dst, t, [a, b], fl)
        if op in CASTS:
            fl = set()
            while p.pv() in ("nneg", "nsw", "nuw"):
                fl.add(p.next()[1])
            t = p.type()
            v = p.value(t)
            p.expect("to")
            t2 = p.type()
            return Instr(op, dst, t2, [v], fl, x=t)
        if op == "icmp":
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr("icmp", dst, t, [a, b], x=pred)
        if op in ("fcmp", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            while p.pv() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            pred = p.next()[1] if op == "fcmp" else None
            t = p.type()
            a = p.value(t)
            b = None
            if p.accept(","):
                b = p.value(t)
            return Instr(op, dst, t, [a, b], x=pred)
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = 1
            if p.accept(","):
                if p.pv() != "align":
                    t2 = p.type()
                    n = p.value(t2)
            return Instr("alloca", dst, t, [n])
        if op == "load":
            if p.pv() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.expect(",")
            pt = p.type()
            a = p.value(pt)
            return Instr("load", dst, t, [a])
        if op == "store":
            if p.pv() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            a = p.value(pt)
            return Instr("store", None, t, [v, a])
        if op == "getelementptr":
            fl = set()
            while p.pv() in ("inbounds", "nuw", "nusw"):
                fl.add(p.next()[1])
            bt = p.type()
            args = []
            while p.accept(","):
                t = p.type()
                args.append((t, p.value(t)))
            return Instr("gep", dst, bt, args, fl)
        if op == "phi":
            while p.pv() in ("fast", "nnan", "ninf", "nsz"):
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = p.next()[1][1:].strip('"')
                p.expect("]")
                inc[b] = v
                if not p.accept(","):
                    break
            return Instr("phi", dst, t, inc)
        if op == "select":
            ct, c = p.tv()
            p.expect(",")
            t, a = p.tv()
            p.expect(",")
            t2, b = p.tv()
            if ct.k == "vec":
                raise Unsupported("vector select")
            return Instr("select", dst, t, [c, a, b])
        if op == "br":
            if p.accept("label"):
                return Instr("jmp", None, VOID, [p.next()[1][1:].strip('"')])
            t, c = p.tv()
            p.expect(",")
            p.expect("label")
            a = p.next()[1][1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1][1:].strip('"')
            return Instr("br", None, VOID, [c, a, b])
        if op == "switch":
            t, c = p.tv()
            p.expect(",")
            p.expect("label")
            d = p.next()[1][1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                t2 = p.type()
                v = p.value(t2)
                p.expect(",")
                p.expect("label")
                cases.append((v[1], p.next()[1][1:].strip('"')))
            return Instr("switch", None, t, [c, d, cases])
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return Instr("ret", None, t, [])
            return Instr("ret", None, t, [p.value(t)])
        if op == "unreachable":
            return Instr("unreachable", None, VOID, [])
        if op == "freeze":
            t, a = p.tv()
            return Instr("freeze", dst, t, [a])
        if op == "extractvalue":
            t, a = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Instr("extractvalue", dst, t, [a, idx])
        if op == "insertvalue":
            t, a = p.tv()
            p.expect(",")
            t2, b = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return Instr("insertvalue", dst, t, [a, b, idx], x=t2)
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op == "call":
            while p.pv() in FN_PRE or p.pv() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.i += 1
            p.skip_attrs()
            # return type
            t = p.type()
            if t.k == "fn":
                t = t.elems[0]
            k, v = p.peek()
            if k == "glob":
                p.i += 1
                callee = ("global", v[1:].strip('"'))
            elif k == "loc":
                p.i += 1
                callee = ("reg", v[1:])
            elif v == "asm":
                raise Unsupported("inline asm")
            else:
                raise Unsupported("callee %r" % v)
            if callee[1].startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.invariant")):
                return None
            p.expect("(")
            args = []
            while not p.accept(")"):
                at = p.type()
                p.skip_attrs()
                args.append((at, p.value(at)))
                p.accept(",")
            return Instr("call", dst, t, [callee, args])
        raise Unsupported("instr " + op)

    def _cfg(self, f):
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "jmp":
                b.succs = [t.a[0]]
            elif t.op == "br":
                b.succs = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succs = [t.a[1]] + [c[1] for c in t.a[2]]
        # natural loops via DFS back edges
        color = {}
        st = [(f.entry, iter(f.blocks[f.entry].succs))]
        color[f.entry] = 1
        back = []
        while st:
            n, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(f.blocks[s].succs)))
                    break
                if color[s] == 1:
                    back.append((n, s))
            else:
                color[n] = 2
                st.pop()
        preds = {}
        for b in f.blocks.values():
            for s in b.succs:
                preds.setdefault(s, []).append(b.name)
        for n, h in back:
            hb = f.blocks[h]
            hb.is_header = True
            body = hb.loop or {h}
            work = [n]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds.get(x, [])
            hb.loop = body
