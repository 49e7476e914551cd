"""Front end: compiles the library's translation units (the list in /repo/Makefile.am) to LLVM IR with the
system clang, links them into one whole-program module and loads it through the LLVM C API into plain
Python objects (functions, blocks, instructions in SSA form, resolved callees, struct fields, lines)."""
import ctypes, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from ctypes import c_void_p, c_char_p, c_int, c_uint, c_longlong, c_ulonglong, c_size_t, byref, POINTER

REPO = os.environ.get("OSLAN_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, build failure...): error exit."""


# ------------------------------------------------------------------------------------------------ LLVM-C
_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"):
        try:
            _L = ctypes.CDLL(cand)
            break
        except OSError:
            continue
    if _L is None:
        raise AnalysisBroken("libLLVM-18 not found")
    P = c_void_p
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (c_int, [c_char_p, POINTER(P), POINTER(c_char_p)]),
        "LLVMParseBitcodeInContext2": (c_int, [P, P, POINTER(P)]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetInitializer": (P, [P]), "LLVMIsConstantString": (c_int, [P]),
        "LLVMGetAsString": (P, [P, POINTER(c_size_t)]),
        "LLVMGetValueName2": (P, [P, POINTER(c_size_t)]),
        "LLVMIsDeclaration": (c_int, [P]), "LLVMGetLinkage": (c_int, [P]),
        "LLVMCountParams": (c_uint, [P]), "LLVMGetParam": (P, [P, c_uint]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMBasicBlockAsValue": (P, [P]),
        "LLVMGetInstructionOpcode": (c_int, [P]), "LLVMGetICmpPredicate": (c_int, [P]),
        "LLVMGetNumOperands": (c_int, [P]), "LLVMGetOperand": (P, [P, c_uint]),
        "LLVMGetNumSuccessors": (c_uint, [P]), "LLVMGetSuccessor": (P, [P, c_uint]),
        "LLVMIsConditional": (c_int, [P]), "LLVMGetCondition": (P, [P]),
        "LLVMCountIncoming": (c_uint, [P]), "LLVMGetIncomingValue": (P, [P, c_uint]),
        "LLVMGetIncomingBlock": (P, [P, c_uint]),
        "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (c_uint, [P]),
        "LLVMTypeOf": (P, [P]), "LLVMPrintTypeToString": (P, [P]),
        "LLVMGetGEPSourceElementType": (P, [P]), "LLVMGetAllocatedType": (P, [P]),
        "LLVMGetTypeKind": (c_int, [P]), "LLVMGetStructName": (c_char_p, [P]),
        "LLVMGetValueKind": (c_int, [P]),
        "LLVMConstIntGetSExtValue": (c_longlong, [P]), "LLVMGetIntTypeWidth": (c_uint, [P]),
        "LLVMGetConstOpcode": (c_int, [P]),
        "LLVMGetDebugLocLine": (c_uint, [P]), "LLVMGetDebugLocFilename": (P, [P, POINTER(c_uint)]),
        "LLVMIsAIntrinsicInst": (P, [P]), "LLVMGlobalGetValueType": (P, [P]),
        "LLVMPrintValueToString": (P, [P]),
        "LLVMGetNumIndices": (c_uint, [P]), "LLVMGetIndices": (ctypes.POINTER(c_uint), [P]),
        "LLVMIsGlobalConstant": (c_int, [P]), "LLVMGetAggregateElement": (P, [P, c_uint]),
    }
    for n, (r, a) in sig.items():
        f = getattr(_L, n)
        f.restype, f.argtypes = r, a
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 53: "extractvalue",
       54: "insertvalue", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Val:
    __slots__ = ("k", "v", "ty", "id")
    # k: 'arg','inst','int','null','undef','global','func','str','bb','cexpr','other'

    def __init__(self, k, v=None, ty=None, id=None):
        self.k, self.v, self.ty, self.id = k, v, ty, id

    def __repr__(self):
        return f"{self.k}:{self.v if self.k != 'inst' else '%' + str(self.v.n)}"


class Inst:
    __slots__ = ("n", "op", "ty", "ops", "line", "file", "pred", "callee", "sty", "succ", "cases", "incoming", "block", "name", "fn")

    def __repr__(self):
        return f"%{self.n}={self.op} {self.ops} L{self.line}"


class Block:
    __slots__ = ("name", "insts", "succ", "pred", "i", "fn")

    def __repr__(self):
        return f"<{self.name}>"


class Func:
    def __init__(self):
        self.name = ""
        self.blocks = []
        self.params = []
        self.file = None
        self.line = 0
        self.decl = True
        self.internal = False
        self.insts = []

    def __repr__(self):
        return f"@{self.name}"

    # --- CFG utilities
    def rpo(self):
        if getattr(self, "_rpo", None) is None:
            seen, out = set(), []
            st = [(self.blocks[0], iter(self.blocks[0].succ))]
            seen.add(self.blocks[0])
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(s.succ)))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def idom(self):
        if getattr(self, "_idom", None) is None:
            rpo = self.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            idom = {rpo[0]: rpo[0]}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in b.pred:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x is not y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) is not new:
                        idom[b] = new
                        ch = True
            self._idom = idom
        return self._idom

    def dominates(self, a, b):
        idom = self.idom()
        if b not in idom:
            return True
        while True:
            if a is b:
                return True
            n = idom[b]
            if n is b:
                return False
            b = n

    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if getattr(self, "_loops", None) is None:
            res = {}
            for b in self.rpo():
                for s in b.succ:
                    if self.dominates(s, b):
                        body = res.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(p for p in x.pred if p in self.idom())
            self._loops = res
        return self._loops


class Module:
    def __init__(self):
        self.funcs = {}
        self.fields = {}      # struct name -> [(field name, type string)]
        self.globals = {}
        self.gdata = {}       # constant globals: nested lists of values
        self.strings = {}
        self.sources = []
        self.public = set()


def source_list(repo=None):
    repo = repo or REPO
    txt = open(os.path.join(repo, "Makefile.am"), errors="replace").read()
    m = re.search(r"^libosl_la_SOURCES\s*=((?:.*\\\n)*.*)$", txt, re.M)
    if not m:
        raise AnalysisBroken("libosl_la_SOURCES not found in Makefile.am")
    lst = [w for w in m.group(1).replace("\\\n", " ").split() if w.endswith(".c")]
    if len(lst) < 20:
        raise AnalysisBroken("too few sources in Makefile.am")
    return lst


def compile_module(work, repo=None, extra=()):
    repo = repo or REPO
    inc = os.path.join(work, "inc", "osl")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(repo, "include/osl/scop.h.in")).read()
    open(os.path.join(inc, "scop.h"), "w").write(re.sub(r"@[A-Z_]+@", "0.0.0", src))
    srcs = source_list(repo)

    def one(s):
        out = os.path.join(work, s.replace("/", "_")[:-2] + ".bc")
        r = subprocess.run(["clang", "-w", "-std=gnu17", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                            "-DOSL_GMP_IS_HERE", "-I" + os.path.join(work, "inc"), "-Iinclude", "-emit-llvm", "-c", s, "-o", out, *extra],
                           cwd=repo, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken(f"clang failed on {s}:\n{r.stderr[:2000]}")
        return out
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, srcs))
    def opt1(bc):
        o = bc[:-3] + ".opt.bc"
        r = subprocess.run(["opt", "-passes=function(sroa)", bc, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("opt: " + r.stderr[:2000])
        r = subprocess.run(["llvm-dis", o, "-o", o[:-3] + ".ll"], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("llvm-dis: " + r.stderr[:2000])
        return o
    with ThreadPoolExecutor(8) as ex:
        opt = list(ex.map(opt1, bcs))
    return opt, srcs


def public_names(repo=None):
    """function names declared in the installed headers"""
    repo = repo or REPO
    out = set()
    for d in ("include/osl", "include/osl/extensions"):
        for f in os.listdir(os.path.join(repo, d)):
            if f.endswith((".h", ".h.in")):
                t = open(os.path.join(repo, d, f), errors="replace").read()
                out |= set(re.findall(r"\b(osl_\w+)\s*\(", t))
    return out


def _str(L, p):
    return ctypes.string_at(p).decode(errors="replace") if p else ""


def load(bc, M, src):
    L = _lib()
    ctx = L.LLVMContextCreate()
    buf, err, mod = c_void_p(), c_char_p(), c_void_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(), byref(buf), byref(err)):
        raise AnalysisBroken("cannot read " + bc)
    if L.LLVMParseBitcodeInContext2(ctx, buf, byref(mod)):
        raise AnalysisBroken("cannot parse " + bc)
    n = c_size_t()
    mine = []

    def name(v):
        p = L.LLVMGetValueName2(v, byref(n))
        return ctypes.string_at(p, n.value).decode(errors="replace")
    tycache = {}

    def ty(t):
        r = tycache.get(t)
        if r is None:
            r = _str(L, L.LLVMPrintTypeToString(t))
            if " = type " in r:
                r = r.split(" = type ")[0].lstrip("%")
            r = r.replace("%struct.", "struct.").replace("%union.", "union.")
            tycache[t] = r
        return r
    gvals = {}
    g = L.LLVMGetFirstGlobal(mod)
    while g:
        nm = name(g)
        init = L.LLVMGetInitializer(g)
        if init and L.LLVMIsConstantString(init):
            p = L.LLVMGetAsString(init, byref(n))
            s = ctypes.string_at(p, n.value)
            s = s.split(b"\0")[0].decode("latin1")
            gvals[g] = Val("str", s, "ptr", nm)
            M.strings[nm] = s
        else:
            gvals[g] = Val("global", nm, "ptr", src)
            elems = []
            if init:
                for i in range(L.LLVMGetNumOperands(init)):
                    elems.append(L.LLVMGetOperand(init, i))
            M.globals[src + ":" + nm] = dict(type=ty(L.LLVMGlobalGetValueType(g)), init=elems, const=bool(L.LLVMIsGlobalConstant(g)))
        g = L.LLVMGetNextGlobal(g)
    fvals = {}
    f = L.LLVMGetFirstFunction(mod)
    while f:
        F = Func()
        F.name = name(f)
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.internal = L.LLVMGetLinkage(f) in (8, 9)
        F.nparams = L.LLVMCountParams(f)
        F._ref = f
        F.src = src
        mine.append(F)
        old = M.funcs.get(F.name)
        if F.internal and not F.decl:
            if old is not None:
                if old.decl:
                    raise AnalysisBroken("static/extern clash on " + F.name)
                F.name = F.name + "@" + src
            M.funcs[F.name] = F
        elif old is None or old.decl:
            M.funcs[F.name] = F
        elif not F.decl:
            raise AnalysisBroken("duplicate definition of " + F.name)
        fvals[f] = F
        f = L.LLVMGetNextFunction(f)

    vc = {}

    def const(v):
        k = L.LLVMGetValueKind(v)
        r = vc.get(v)
        if r is not None:
            return r
        t = ty(L.LLVMTypeOf(v))
        if v in gvals:
            r = gvals[v]
        elif v in fvals:
            r = Val("func", fvals[v].name, "ptr")
        elif t.startswith("i") and L.LLVMGetValueKind(v) == 18:
            r = Val("int", L.LLVMConstIntGetSExtValue(v), t)
        elif k == 20 or k == 14 or k == 15:
            r = Val("null", 0, t)
        else:
            s = _str(L, L.LLVMPrintValueToString(v))
            if re.match(r"^i\d+ -?\d+$", s):
                r = Val("int", int(s.split()[1]), t)
            elif s == "ptr null":
                r = Val("null", 0, t)
            elif s.endswith(("undef", "poison")):
                r = Val("undef", None, t)
            elif "getelementptr" in s or "ptrtoint" in s or "bitcast" in s:
                ops = [const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
                sty = ty(L.LLVMGetGEPSourceElementType(v)) if "getelementptr" in s else None
                r = Val("cexpr", ("gep" if sty else "cast", sty, ops), t)
            else:
                r = Val("other", s, t)
        vc[v] = r
        return r

    for F in mine:
        f = F._ref
        if F.decl:
            continue
        local = {}
        for i in range(F.nparams):
            p = L.LLVMGetParam(f, i)
            v = Val("arg", i, ty(L.LLVMTypeOf(p)), name(p))
            local[p] = v
            F.params.append(v)
        bb = L.LLVMGetFirstBasicBlock(f)
        bmap, order = {}, []
        while bb:
            B = Block()
            B.fn = F
            B.name = name(L.LLVMBasicBlockAsValue(bb))
            B.insts, B.succ, B.pred, B.i = [], [], [], len(order)
            bmap[bb] = B
            bmap[L.LLVMBasicBlockAsValue(bb)] = B
            order.append((bb, B))
            bb = L.LLVMGetNextBasicBlock(bb)
        raw = []
        cnt = 0
        for bb, B in order:
            i = L.LLVMGetFirstInstruction(bb)
            while i:
                opn = L.LLVMGetInstructionOpcode(i)
                op = OPC.get(opn, "op%d" % opn)
                skip = False
                if op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    if cv in fvals and fvals[cv].name.startswith("llvm.dbg"):
                        skip = True
                if not skip:
                    I = Inst()
                    I.n = cnt
                    cnt += 1
                    I.op = op
                    I.block = B
                    I.fn = F
                    I.ty = ty(L.LLVMTypeOf(i))
                    I.name = name(i)
                    I.line = L.LLVMGetDebugLocLine(i)
                    ln = c_uint()
                    fp = L.LLVMGetDebugLocFilename(i, byref(ln))
                    I.file = ctypes.string_at(fp, ln.value).decode() if fp and ln.value else None
                    I.pred = I.callee = I.sty = I.cases = I.incoming = None
                    I.succ = ()
                    local[i] = Val("inst", I, I.ty)
                    B.insts.append(I)
                    raw.append((i, I))
                i = L.LLVMGetNextInstruction(i)

        def val(v):
            r = local.get(v)
            if r is None:
                if v in bmap:
                    return Val("bb", bmap[v])
                r = const(v)
            return r
        for i, I in raw:
            op = I.op
            if op == "phi":
                I.incoming = [(val(L.LLVMGetIncomingValue(i, j)), bmap[L.LLVMGetIncomingBlock(i, j)]) for j in range(L.LLVMCountIncoming(i))]
                I.ops = [v for v, _ in I.incoming]
                continue
            if op == "br":
                I.succ = [bmap[L.LLVMGetSuccessor(i, j)] for j in range(L.LLVMGetNumSuccessors(i))]
                I.ops = [val(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
            elif op == "switch":
                no = L.LLVMGetNumOperands(i)
                o = [val(L.LLVMGetOperand(i, j)) for j in range(no)]
                I.ops = [o[0]]
                I.cases = [(o[j].v, o[j + 1].v) for j in range(2, no, 2)]
                I.cases.append((None, o[1].v))
                I.succ = [b for _, b in I.cases]
            elif op == "call":
                na = L.LLVMGetNumArgOperands(i)
                I.ops = [val(L.LLVMGetOperand(i, j)) for j in range(na)]
                I.callee = val(L.LLVMGetCalledValue(i))
            else:
                I.ops = [val(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                if op in ("extractvalue", "insertvalue"):
                    I.cases = [L.LLVMGetIndices(i)[j] for j in range(L.LLVMGetNumIndices(i))]
                if op == "icmp":
                    I.pred = PRED[L.LLVMGetICmpPredicate(i)]
                elif op == "gep":
                    I.sty = ty(L.LLVMGetGEPSourceElementType(i))
                elif op == "alloca":
                    I.sty = ty(L.LLVMGetAllocatedType(i))
        for bb, B in order:
            t = B.insts[-1]
            seen = []
            for s in t.succ:
                if s not in seen:
                    seen.append(s)
            B.succ = seen
            for s in seen:
                s.pred.append(B)
        F.blocks = [B for _, B in order]
        F.insts = [I for _, I in raw]
        files = [I.file for I in F.insts if I.file]
        F.file = max(set(files), key=files.count) if files else None
        lines = [I.line for I in F.insts if I.line]
        F.line = min(lines) if lines else 0
    # constant tables, element by element
    def deep(v, d=0):
        t = ty(L.LLVMTypeOf(v))
        if v in gvals or v in fvals or d > 4 or not (t[0] in "[{" or t.startswith("struct.")):
            return const(v)
        n, out = 0, []
        m = re.match(r"\[(\d+) x", t)
        lim = int(m.group(1)) if m else 64
        while n < min(lim, 256):
            e = L.LLVMGetAggregateElement(v, n)
            if not e:
                break
            out.append(deep(e, d + 1))
            n += 1
        return out
    for g, v in gvals.items():
        if v.k == "global" and L.LLVMIsGlobalConstant(g):
            init = L.LLVMGetInitializer(g)
            if init:
                M.gdata[src + ":" + v.v] = deep(init)
    # named global initialisers (tables)
    for gn, gd in M.globals.items():
        if gn.startswith(src + ":"):
            gd["init"] = [const(v) for v in gd["init"]]


def field_names(ll, M):
    """struct layouts and function signatures from the debug info"""
    txt = open(ll, encoding="latin1").read()
    txt = txt[txt.find("!llvm.dbg.cu"):]
    md = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$", txt, re.M):
        md[m.group(1)] = (m.group(2), m.group(3))
    tup = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!\{(.*)\}$", txt, re.M):
        tup[m.group(1)] = re.findall(r"!?(\d+|null)", m.group(2))

    def attr(s, a):
        m = re.search(r"\b%s: (?:\"([^\"]*)\"|(![0-9]+|[^,]+))" % a, s)
        return (m.group(1) if m.group(1) is not None else m.group(2)) if m else None

    def tyname(ref, d=0):
        if ref is None or ref == "null" or d > 10:
            return "void"
        k, s = md.get(ref.lstrip("!"), ("", ""))
        if k == "DIBasicType":
            return attr(s, "name")
        if k == "DIDerivedType":
            tag = attr(s, "tag")
            b = attr(s, "baseType")
            if tag == "DW_TAG_pointer_type":
                return tyname(b, d + 1) + "*"
            if tag == "DW_TAG_typedef":
                nm = attr(s, "name")
                bt = tyname(b, d + 1)
                return bt if bt else nm
            return tyname(b, d + 1)
        if k == "DICompositeType":
            tag = attr(s, "tag")
            pre = {"DW_TAG_structure_type": "struct.", "DW_TAG_union_type": "union."}.get(tag, "")
            if tag == "DW_TAG_array_type":
                return "[]" + tyname(attr(s, "baseType"), d + 1)
            return pre + (attr(s, "name") or "anon")
        if k == "DISubroutineType":
            return "fn"
        return "?"
    def pconst(ref):
        """pointer whose target is const"""
        ptr = False
        for _ in range(12):
            k, s = md.get((ref or "").lstrip("!"), ("", ""))
            if k != "DIDerivedType":
                return False
            tag = attr(s, "tag")
            if tag == "DW_TAG_const_type" and ptr:
                return True
            if tag == "DW_TAG_pointer_type":
                if ptr:
                    return False
                ptr = True
            ref = attr(s, "baseType")
        return False

    for k, s in md.values():
        if k == "DICompositeType" and ("DW_TAG_structure_type" in s or "DW_TAG_union_type" in s) and attr(s, "name") and attr(s, "elements"):
            pre = "struct." if "DW_TAG_structure_type" in s else "union."
            els = tup.get(attr(s, "elements").lstrip("!"), [])
            fl = []
            for e in els:
                kk, ss = md[e]
                fl.append((attr(ss, "name"), tyname(attr(ss, "baseType"))))
            nm = pre + attr(s, "name")
            if nm not in M.fields or len(M.fields[nm]) < len(fl):
                M.fields[nm] = fl
    # declaration lines + parameter types of functions
    for k, s in md.values():
        if k == "DISubprogram" and attr(s, "name"):
            t = md.get((attr(s, "type") or "").lstrip("!"))
            ts = []
            if t:
                tr = attr(t[1], "types")
                if tr:
                    ts = [tyname(x) for x in tup.get(tr.lstrip("!"), [])]
                    M.pconst[attr(s, "name")] = [pconst(x) for x in tup.get(tr.lstrip("!"), [])]
            nm = attr(s, "name")
            if "DISPFlagDefinition" in s or nm not in M.ptypes:
                M.ptypes[nm] = ts
            F = M.funcs.get(nm)
            if F and not F.decl and attr(s, "line") and "DISPFlagDefinition" in s:
                F.line = int(attr(s, "line"))


def build(repo=None, extra=()):
    work = tempfile.mkdtemp(prefix="oslan.")
    try:
        bcs, srcs = compile_module(work, repo, extra)
        M = Module()
        M.sources = srcs
        M.ptypes = {}
        M.pconst = {}
        for bc, src in zip(bcs, srcs):
            load(bc, M, src)
            field_names(bc[:-3] + ".ll", M)
        M.public = public_names(repo)
        return M
    finally:
        shutil.rmtree(work, ignore_errors=True)


_MACROS = {}


def macros(repo=None):
    """integer and string macros of the public headers, by evaluation of their plain definitions"""
    repo = repo or REPO
    if repo in _MACROS:
        return _MACROS[repo]
    out, raw = {}, {}
    for d, _, fs in os.walk(os.path.join(repo, "include")):
        for f in fs:
            if f.endswith((".h", ".h.in")):
                for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+(OSL_\w+)[ \t]+(.+?)[ \t]*(?:/\*.*|//.*)?$", open(os.path.join(d, f), errors="replace").read(), re.M):
                    raw[m.group(1)] = m.group(2).strip()
    for k, v in raw.items():
        v = v.strip()
        for _ in range(4):
            if v in raw:
                v = raw[v]
            v = v.strip()
            if v.startswith("(") and v.endswith(")"):
                v = v[1:-1].strip()
        if re.fullmatch(r"-?\d+", v):
            out[k] = int(v)
        elif re.fullmatch(r'"[^"]*"', v):
            out[k] = v[1:-1]
    _MACROS[repo] = out
    return out


def dump(F):
    out = []
    for b in F.blocks:
        out.append(b.name + ":")
        for i in b.insts:
            x = ""
            if i.op == "icmp":
                x = i.pred
            elif i.op == "call":
                x = repr(i.callee)
            elif i.op in ("gep", "alloca"):
                x = i.sty
            elif i.op in ("br", "switch"):
                x = str(i.succ)
            out.append(f"  %{i.n} = {i.op} {x} {i.incoming if i.incoming else i.ops}  ; L{i.line}")
    return "\n".join(out)


if __name__ == "__main__":
    import time
    t = time.time()
    M = build()
    print(len(M.funcs), sum(len(f.insts) for f in M.funcs.values()), time.time() - t)
    for a in sys.argv[1:]:
        if a in M.fields:
            print(a, M.fields[a])
        elif a in M.funcs:
            print(M.ptypes.get(a))
            print(dump(M.funcs[a]))
