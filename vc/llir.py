"""Parser for the textual LLVM-18 IR that clang emits (the subset the library needs)."""
import re, struct

# ---- types: ('int',n) ('float',32|64|80) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('struct',[t..],packed) ('named',name)
TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<qstr>"(?:[^"])*")|
 (?P<lid>%"[^"]*"|%[-a-zA-Z$._0-9]+)|
 (?P<gid>@"[^"]*"|@[-a-zA-Z$._0-9]+)|
 (?P<com>\$"[^"]*"|\$[-a-zA-Z$._0-9]+)|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#[0-9]+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<num>-?[0-9]+(?:\.[0-9]*(?:e[+-]?[0-9]+)?)?)|
 (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)|
 (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

class ParseError(Exception): pass

class Toks:
    def __init__(self, s):
        self.s = s; self.t = []
        pos = 0; n = len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m or m.end() == pos:
                if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"): break
                raise ParseError("tok: " + s[pos:pos + 60])
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
        self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")
    def pv(self): return self.peek()[1]
    def next(self):
        r = self.peek(); self.i += 1; return r
    def nv(self): return self.next()[1]
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "word"):
            self.i += 1; return True
        return False
    def expect(self, v):
        if self.nv() != v: raise ParseError("expected %r at %r in %r" % (v, self.t[max(0, self.i - 3):self.i + 3], self.s[:200]))
    def eof(self): return self.i >= len(self.t)

ATTRW = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext", "inreg",
         "returned", "immarg", "dead_on_unwind", "writable", "nofree", "noreturn", "nounwind", "nest", "swiftself", "allocptr", "willreturn", "mustprogress"}
ATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "memory", "range", "nofpclass", "byref", "preallocated", "inalloca", "allocsize", "initializes"}

def unq(s):
    # local/global id normalisation
    if s[1:2] == '"': return s[0] + s[2:-1]
    return s

def skip_attrs(tk):
    at = {}
    while True:
        k, v = tk.peek()
        if k == "word" and v in ATTRW:
            tk.next(); at[v] = True
        elif k == "word" and v in ATTRP:
            tk.next()
            if tk.pv() == "(":
                depth = 0; inner = []
                while True:
                    a = tk.next(); inner.append(a[1])
                    if a[1] == "(": depth += 1
                    if a[1] == ")":
                        depth -= 1
                        if depth == 0: break
                at[v] = inner[1:-1]
            else:
                at[v] = tk.nv()
        elif k == "qstr":
            tk.next()
            if tk.accept("="): tk.next()
        else:
            return at

def parse_type(tk):
    k, v = tk.next()
    if k == "word":
        if re.fullmatch(r"i\d+", v): t = ("int", int(v[1:]))
        elif v == "float": t = ("float", 32)
        elif v == "double": t = ("float", 64)
        elif v == "x86_fp80": t = ("float", 80)
        elif v == "half": t = ("float", 16)
        elif v == "ptr": t = ("ptr",)
        elif v == "void": t = ("void",)
        elif v == "metadata": t = ("metadata",)
        elif v == "label": t = ("label",)
        elif v == "token": t = ("token",)
        elif v == "opaque": t = ("opaque",)
        else: raise ParseError("type " + v)
        if v == "ptr" and tk.pv() == "addrspace":
            tk.next(); tk.expect("("); tk.next(); tk.expect(")")
    elif k == "lid": t = ("named", unq(v))
    elif v == "[":
        n = int(tk.nv()); tk.expect("x"); e = parse_type(tk); tk.expect("]"); t = ("arr", n, e)
    elif v == "<":
        if tk.pv() == "{":
            tk.next(); t = ("struct", tuple(parse_list(tk, "}")), True); tk.expect(">")
        else:
            n = int(tk.nv()); tk.expect("x"); e = parse_type(tk); tk.expect(">"); t = ("vec", n, e)
    elif v == "{":
        t = ("struct", tuple(parse_list(tk, "}")), False)
    else: raise ParseError("type tok %r" % v)
    # function type
    if tk.pv() == "(" and t[0] not in ("label", "metadata"):
        # ambiguous only in call/func-type contexts; caller handles
        pass
    return t

def parse_list(tk, end):
    out = []
    if tk.accept(end): return out
    while True:
        if tk.pv() == "...": tk.next(); out.append(("vararg",))
        else: out.append(parse_type(tk))
        if tk.accept(end): return out
        tk.expect(",")

# ---- operands: ('l',name) ('g',name) ('int',v) ('fp',bits-of-double or float repr) ('null',) ('undef',) ('zero',) ('agg',[(t,op)..]) ('cexpr',...) ('str',bytes)
CE_CAST = {"bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"}
def parse_op(tk, ty):
    k, v = tk.next()
    if k == "lid": return ("l", unq(v))
    if k == "gid": return ("g", unq(v))
    if k == "num":
        if ty[0] == "float": return ("fp", float(v))
        return ("int", int(v))
    if k == "hex":
        if v[2] in "KLMHR": return ("fphex", v)
        return ("fp", struct.unpack("<d", struct.pack("<Q", int(v, 16)))[0])
    if k == "str":
        return ("str", cstr(v[2:-1]))
    if k == "word":
        if v == "true": return ("int", 1)
        if v == "false": return ("int", 0)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef",)
        if v == "zeroinitializer": return ("zero",)
        if v == "none": return ("zero",)
        if v == "getelementptr":
            inb = False
            while tk.peek()[0] == "word" and tk.pv() in ("inbounds", "nuw", "nusw"): tk.next(); inb = True
            tk.expect("(")
            bt = parse_type(tk); tk.expect(",")
            ops = []
            while True:
                if tk.accept("inrange"):
                    if tk.accept("("):
                        while not tk.accept(")"): tk.next()
                t = parse_type(tk); ops.append((t, parse_op(tk, t)))
                if tk.accept(")"): break
                tk.expect(",")
            return ("cgep", bt, ops)
        if v in CE_CAST:
            tk.expect("("); t = parse_type(tk); o = parse_op(tk, t); tk.expect("to"); t2 = parse_type(tk); tk.expect(")")
            return ("ccast", v, t, o, t2)
        if v in ("sub", "add", "mul", "xor", "shl"):
            while tk.pv() in ("nuw", "nsw"): tk.next()
            tk.expect("("); t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2); tk.expect(")")
            return ("cbin", v, t, a, b)
        if v == "blockaddress" or v == "dso_local_equivalent" or v == "no_cfi": raise ParseError(v)
    if v in ("[", "{", "<"):
        end = {"[": "]", "{": "}", "<": ">"}[v]
        packed = False
        if v == "<" and tk.pv() == "{":
            tk.next(); end = "}"; packed = True
        out = []
        if not tk.accept(end):
            while True:
                t = parse_type(tk); out.append((t, parse_op(tk, t)))
                if tk.accept(end): break
                tk.expect(",")
        if packed: tk.expect(">")
        return ("agg", out)
    raise ParseError("operand %r %r" % (k, v))

def cstr(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\": b.append(92); i += 2
            else: b.append(int(s[i + 1:i + 3], 16)); i += 3
        else: b.append(ord(s[i])); i += 1
    return bytes(b)

class Inst:
    __slots__ = ("op", "res", "ty", "a", "txt")
    def __init__(self, op, res, ty, a, txt): self.op = op; self.res = res; self.ty = ty; self.a = a; self.txt = txt

class Func:
    def __init__(self): self.name = None; self.ret = None; self.params = []; self.blocks = {}; self.order = []; self.decl = False; self.linkage = ""; self.module = None; self.lines = None; self.attrs=[]

class Module:
    def __init__(self, path):
        self.path = path; self.types = {}; self.internal = set(); self.globals = {}; self.funcs = {}; self.aliases = {}
        self.parse(open(path, encoding="latin-1").read())
        self.mark_effective_constants()

    def parse(self, text):
        lines = text.split("\n"); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)', ln)
                if m:
                    tk = Toks(m.group(2)); self.types[unq(m.group(1))] = parse_type(tk)
            elif ln.startswith("@"):
                self.parse_global(ln)
            elif ln.startswith("declare "):
                f = self.parse_head(ln[8:], True); self.funcs.setdefault(f.name, f)
            elif ln.startswith("define "):
                f = self.parse_head(ln[7:], False)
                j = i + 1
                while lines[j] != "}": j += 1
                f.lines = lines[i + 1:j]; i = j
                self.funcs[f.name] = f
            i += 1

    def mark_effective_constants(self):
        """an internal variable whose every use in the module is a load (or address of a load) never changes"""
        for name, (const, t, init) in list(self.globals.items()):
            if const or init is None or name not in self.internal: continue
            ok = True; raw = name
            pat = re.compile(re.escape(raw) + r'(?![-a-zA-Z$._0-9])')
            q = '@"' + raw[1:] + '"'
            for o, (c2, t2, i2) in self.globals.items():
                if o != name and i2 is not None and raw in repr(i2): ok = False; break
            for f in self.funcs.values():
                if not ok: break
                for ln in getattr(f, "lines", None) or ():
                    if raw not in ln and q not in ln: continue
                    if not pat.search(ln) and q not in ln: continue
                    if re.search(r"\b(call|invoke)\b.* @(_ZNSo5writeEPKcl|memcmp|strcmp|strlen)\(", ln) and not re.search(r"\bstore\b", ln): continue    # const parameters
                    m = re.match(r"\s*(%\S+|%\"[^\"]*\") = (load|getelementptr)\b", ln)
                    if not m: ok = False; break
                    if m.group(2) == "getelementptr":
                        rp = re.compile(re.escape(m.group(1)) + r'(?![-a-zA-Z$._0-9])')
                        for l2 in f.lines:
                            if l2 is not ln and rp.search(l2) and not re.match(r"\s*(%\S+|%\"[^\"]*\") = load\b", l2): ok = False; break
                    if not ok: break
            if ok: self.globals[name] = (True, t, init)

    LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external",
            "dso_local", "dso_preemptable", "default", "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "thread_local", "noundef", "cc", "fastcc", "coldcc", "ccc", "externally_initialized"}

    def parse_global(self, ln):
        m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)', ln)
        if not m: return
        name = unq(m.group(1)); rest = m.group(2)
        try: tk = Toks(rest)
        except ParseError: return
        kind = None; ext = False
        while tk.peek()[0] == "word":
            v = tk.pv()
            if v in ("global", "constant"): kind = v; tk.next(); break
            if v == "alias":
                g = [t for t in tk.t if t[0] == "gid"]
                if g: self.aliases[name] = unq(g[-1][1])
                return
            if v == "external": ext = True
            if v in ("internal", "private"): self.internal.add(name)
            tk.next()
            if tk.pv() == "(":
                while tk.nv() != ")": pass
        if kind is None: return
        try:
            t = parse_type(tk)
            init = None
            if not ext and not tk.eof() and tk.pv() != ",": init = parse_op(tk, t)
            self.globals[name] = (kind == "constant", t, init)
        except ParseError as e:
            self.globals[name] = (kind == "constant", None, None)

    def parse_head(self, s, decl):
        f = Func(); f.decl = decl; f.module = self
        tk = Toks(s)
        while tk.peek()[0] == "word" and tk.pv() in self.LINK: f.attrs.append(tk.nv())
        while True:
            k, v = tk.peek()
            if k == "word" and (v in ATTRW or v in ATTRP): skip_attrs(tk)
            else: break
        f.ret = parse_type(tk)
        f.name = unq(tk.nv())[1:]
        tk.expect("(")
        idx = 0
        if not tk.accept(")"):
            while True:
                if tk.accept("..."): f.params.append((("vararg",), None, {}))
                else:
                    t = parse_type(tk); at = skip_attrs(tk)
                    nm = "%" + str(idx)
                    if tk.peek()[0] == "lid": nm = unq(tk.nv())
                    f.params.append((t, nm, at)); idx += 1
                if tk.accept(")"): break
                tk.expect(",")
        return f

    def body(self, f):
        if f.order or f.decl: return f
        cur = None; first = True
        implicit = str(len([p for p in f.params]))
        i = 0; L = f.lines
        while i < len(L):
            ln = L[i]; s = ln.strip()
            i += 1
            if not s or s.startswith(";"): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(" "):
                cur = "%" + (m.group(1)[1:-1] if m.group(1)[0] == '"' else m.group(1)); f.blocks[cur] = []; f.order.append(cur); first = False; continue
            if first:
                cur = "%" + implicit; f.blocks[cur] = []; f.order.append(cur); first = False
            if s.startswith("switch ") and s.endswith("["):
                while not L[i].strip().startswith("]"):
                    s += " " + L[i].strip(); i += 1
                s += " ]"; i += 1
            if re.match(r'.*\binvoke\b', s) and "unwind label" not in s:
                s += " " + L[i].strip(); i += 1
            if re.match(r'.*= landingpad', s):
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]): s += " " + L[i].strip(); i += 1
            f.blocks[cur].append(self.inst(s))
        return f

    def inst(self, s):
        txt = s
        # strip metadata
        s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
        tk = Toks(s); res = None
        if tk.peek()[0] == "lid" and tk.peek(1)[1] == "=":
            res = unq(tk.nv()); tk.next()
        op = tk.nv()
        if op in ("tail", "musttail", "notail"): op = tk.nv()
        I = lambda ty, *a: Inst(op, res, ty, a, txt)
        FL = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "samesign"}
        def flags():
            fl = set()
            while tk.peek()[0] == "word" and tk.pv() in FL: fl.add(tk.nv())
            return fl
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = flags(); t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); b = parse_op(tk, t); return I(t, a, b, fl)
        if op == "fneg":
            flags(); t = parse_type(tk); return I(t, parse_op(tk, t))
        if op in ("icmp", "fcmp"):
            flags(); p = tk.nv(); t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); b = parse_op(tk, t); return I(t, p, a, b)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            flags(); t = parse_type(tk); a = parse_op(tk, t); tk.expect("to"); t2 = parse_type(tk); return I(t2, t, a)
        if op == "ret":
            t = parse_type(tk)
            return I(t, None if t == ("void",) else parse_op(tk, t))
        if op == "br":
            t = parse_type(tk)
            if t == ("label",): return I(t, unq(tk.nv()))
            c = parse_op(tk, t); tk.expect(","); tk.expect("label"); a = unq(tk.nv()); tk.expect(","); tk.expect("label"); b = unq(tk.nv())
            return I(t, c, a, b)
        if op == "switch":
            t = parse_type(tk); v = parse_op(tk, t); tk.expect(","); tk.expect("label"); d = unq(tk.nv()); tk.expect("[")
            cs = []
            while not tk.accept("]"):
                t2 = parse_type(tk); c = parse_op(tk, t2); tk.expect(","); tk.expect("label"); cs.append((c[1], unq(tk.nv())))
            return I(t, v, d, cs)
        if op == "unreachable": return I(None)
        if op == "phi":
            flags(); t = parse_type(tk); inc = []
            while True:
                tk.expect("["); v = parse_op(tk, t); tk.expect(","); b = unq(tk.nv()); tk.expect("]"); inc.append((v, b))
                if not tk.accept(","): break
            return I(t, inc)
        if op == "select":
            flags(); t = parse_type(tk); c = parse_op(tk, t); tk.expect(","); t1 = parse_type(tk); a = parse_op(tk, t1); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2)
            return I(t1, t, c, a, b)
        if op == "load":
            while tk.pv() in ("volatile", "atomic"): tk.next()
            t = parse_type(tk); tk.expect(","); pt = parse_type(tk); p = parse_op(tk, pt); return I(t, p)
        if op == "store":
            while tk.pv() in ("volatile", "atomic"): tk.next()
            t = parse_type(tk); v = parse_op(tk, t); tk.expect(","); pt = parse_type(tk); p = parse_op(tk, pt); return I(t, v, p)
        if op == "getelementptr":
            fl = flags(); t = parse_type(tk); tk.expect(","); ops = []
            while True:
                t2 = parse_type(tk); ops.append((t2, parse_op(tk, t2)))
                if not tk.accept(","): break
            return I(t, ops, fl)
        if op == "alloca":
            tk.accept("inalloca"); t = parse_type(tk); n = ("int", 1)
            if tk.accept(","):
                if tk.pv() != "align": t2 = parse_type(tk); n = parse_op(tk, t2)
            return I(t, n)
        if op in ("call", "invoke"):
            flags()
            while tk.peek()[0] == "word" and tk.pv() in self.LINK: tk.next()
            skip_attrs(tk)
            t = parse_type(tk)
            if tk.pv() == "(":
                # function type
                d = 0
                while True:
                    v = tk.nv()
                    if v == "(": d += 1
                    if v == ")":
                        d -= 1
                        if d == 0: break
            k, v = tk.peek()
            callee = parse_op(tk, ("ptr",))
            tk.expect("("); args = []
            if not tk.accept(")"):
                while True:
                    t2 = parse_type(tk)
                    if t2 == ("metadata",):
                        while tk.pv() not in (",", ")"): tk.next()
                        args.append((t2, None, {}))
                    else:
                        at = skip_attrs(tk); args.append((t2, parse_op(tk, t2), at))
                    if tk.accept(")"): break
                    tk.expect(",")
            nd = None
            if op == "invoke":
                while tk.pv() != "to": tk.next()
                tk.next(); tk.expect("label"); nd = unq(tk.nv()); tk.expect("unwind"); tk.expect("label"); ud = unq(tk.nv())
                return I(t, callee, args, nd, ud)
            return I(t, callee, args)
        if op == "extractvalue":
            t = parse_type(tk); a = parse_op(tk, t); ix = []
            while tk.accept(","): ix.append(int(tk.nv()))
            return I(t, a, ix)
        if op == "insertvalue":
            t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2); ix = []
            while tk.accept(","): ix.append(int(tk.nv()))
            return I(t, a, t2, b, ix)
        if op == "extractelement":
            t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2); return I(t, a, b)
        if op == "insertelement":
            t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2); tk.expect(","); t3 = parse_type(tk); c = parse_op(tk, t3); return I(t, a, t2, b, c)
        if op == "shufflevector":
            t = parse_type(tk); a = parse_op(tk, t); tk.expect(","); t2 = parse_type(tk); b = parse_op(tk, t2); tk.expect(","); t3 = parse_type(tk); c = parse_op(tk, t3); return I(t, a, b, t3, c)
        if op == "freeze":
            t = parse_type(tk); return I(t, parse_op(tk, t))
        if op == "atomicrmw":
            tk.accept("volatile"); k = tk.nv(); pt = parse_type(tk); p = parse_op(tk, pt); tk.expect(","); t = parse_type(tk); v = parse_op(tk, t)
            return I(t, k, p, v)
        if op == "landingpad": return I(None)
        if op == "resume": return I(None)
        if op == "fence": return I(None)
        if op == "cmpxchg": return I(None)
        if op == "va_arg": return I(None)
        raise ParseError("inst " + s)

    # ---- layout
    def resolve(self, t):
        while t[0] == "named": t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t[0] == "int": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8)
        if t[0] == "float": return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == "ptr": return 8
        if t[0] == "arr": return self.align(t[2])
        if t[0] == "vec":
            s = self.size(t); return s
        if t[0] == "struct":
            return 1 if t[2] else max([self.align(x) for x in t[1]] + [1])
        raise ParseError("align %r" % (t,))
    def size(self, t):
        t = self.resolve(t)
        if t[0] == "int": return max(1, (t[1] + 7) // 8) if t[1] <= 8 else {16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if t[0] == "float": return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == "ptr": return 8
        if t[0] == "arr": return t[1] * self.size(t[2])
        if t[0] == "vec":
            s = t[1] * self.size(t[2])
            p = 1
            while p < s: p *= 2
            return p
        if t[0] == "struct":
            o = 0
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise ParseError("size %r" % (t,))
    def field(self, t, i):
        t = self.resolve(t); o = 0
        for k, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            if k == i: return o, x
            o += self.size(x)
