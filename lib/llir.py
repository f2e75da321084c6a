"""Parser of the textual LLVM IR that clang 18 produces for this codebase."""
import re, struct

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"(?:[^"])*"|%"[^"]*"|@"[^"]*"|[%@][-\w$.]+|![\w.]*|\#\d+|-?0x[KMHL]?[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+|\.\.\.|[\w.$]+|[][(){}<>,=*:|]''')

class T:  # types
    pass
class IntT(T):
    def __init__(s, w): s.w = w; s.size = max(1, (w + 7) // 8) if w not in (128,) else 16; s.align = s.size
class DblT(T): size = 8; align = 8; w = 64
class FltT(T): size = 4; align = 4; w = 32
class PtrT(T): size = 8; align = 8
class VoidT(T): size = 0; align = 1
class ArrT(T):
    def __init__(s, n, e): s.n, s.e = n, e; s.size = n * e.size; s.align = e.align
class VecT(T):
    def __init__(s, n, e): s.n, s.e = n, e; s.size = n * e.size; s.align = s.size
class StructT(T):
    def __init__(s, es, packed=False):
        s.es = es; s.offs = []; o = 0; al = 1
        for e in es:
            if not packed:
                o = (o + e.align - 1) // e.align * e.align
                al = max(al, e.align)
            s.offs.append(o); o += e.size
        s.align = al
        s.size = (o + al - 1) // al * al
DBL, FLT, PTR, VOID = DblT(), FltT(), PtrT(), VoidT()
_ints = {}
def intt(w):
    if w not in _ints: _ints[w] = IntT(w)
    return _ints[w]

ATTRS = set("""noundef nocapture readonly writeonly nonnull signext zeroext inreg noalias returned nofree immarg readnone
 dso_local local_unnamed_addr unnamed_addr fastcc ccc coldcc tail musttail notail nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc
 volatile nneg disjoint swiftself nest mustprogress noinline internal private external global constant hidden linkonce_odr weak available_externally comdat dllimport weak_odr linkonce noreturn nounwind cold willreturn align_ allockind swifterror""".split())

VALWORDS = set("null true false undef poison zeroinitializer none getelementptr ptrtoint inttoptr bitcast trunc sub add".split())
class Func:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "sret", "mod", "pattrs", "vararg")
class Module:
    def __init__(s, text, path=""):
        s.path = path
        s.types = {}; s.funcs = {}; s.globals = {}; s.aliases = {}; s.text_types = {}
        s.parse(text)

    # --- token helpers
    def toks(s, line): return TOK.findall(line)
    def ptype(s, t, i):
        k = t[i]
        if k == "void": r = VOID; i += 1
        elif k == "double": r = DBL; i += 1
        elif k == "float": r = FLT; i += 1
        elif k == "ptr": r = PTR; i += 1
        elif k == "metadata" or k == "label": r = VOID; i += 1
        elif re.fullmatch(r"i\d+", k): r = intt(int(k[1:])); i += 1
        elif k == "x86_fp80": r = ArrT(16, intt(8)); i += 1
        elif k == "[":
            n = int(t[i + 1]); assert t[i + 2] == "x"
            e, i = s.ptype(t, i + 3); assert t[i] == "]"; i += 1
            r = ArrT(n, e)
        elif k == "<" and t[i + 1] == "{":
            es, i = s.plist(t, i + 2, "}"); assert t[i] == ">"; i += 1
            r = StructT(es, True)
        elif k == "<":
            n = int(t[i + 1]); assert t[i + 2] == "x"
            e, i = s.ptype(t, i + 3); assert t[i] == ">"; i += 1
            r = VecT(n, e)
        elif k == "{":
            es, i = s.plist(t, i + 1, "}"); r = StructT(es)
        elif k[0] == "%":
            r = s.named(k); i += 1
        else: raise ValueError("type? %s in %s" % (k, " ".join(t)[:200]))
        if i < len(t) and t[i] == "(" and not (i > 0 and False):
            pass
        return r, i
    def plist(s, t, i, end):
        es = []
        while t[i] != end:
            e, i = s.ptype(t, i); es.append(e)
            if t[i] == ",": i += 1
        return es, i + 1
    def named(s, k):
        if k in s.types: return s.types[k]
        txt = s.text_types.get(k)
        if txt is None or txt == "opaque": r = StructT([])
        else:
            r, _ = s.ptype(s.toks(txt), 0)
        s.types[k] = r
        return r
    def attrs(s, t, i):
        """skips parameter attributes; -> (attr dict, i)"""
        d = {}
        while i < len(t):
            k = t[i]
            if k == "align" :
                d["align"] = int(t[i + 1]) if t[i+1] != "(" else 0; i += 2 if t[i+1] != "(" else 4
            elif k in ("sret", "byval", "elementtype", "byref", "preallocated"):
                ty, j = s.ptype(t, i + 2); assert t[j] == ")"; d[k] = ty; i = j + 1
            elif k in ("dereferenceable", "dereferenceable_or_null", "memory", "captures", "range", "initializes", "allocsize", "nofpclass"):
                j = i + 1; depth = 0
                while True:
                    if t[j] == "(": depth += 1
                    if t[j] == ")": depth -= 1
                    j += 1
                    if depth == 0: break
                i = j
            elif k in ATTRS: d[k] = True; i += 1
            elif re.fullmatch(r"[a-z][a-z_0-9]*", k) and k not in VALWORDS:
                i += 1
                if i < len(t) and t[i] == "(": i = s.skip(t, i)
            else: break
        return d, i
    def pval(s, t, i, ty):
        """-> (operand, i). operand: ('r',name) | ('k',value) | ('g',name,off) | ('undef',) | ('zero',) | ('agg',[..])"""
        k = t[i]
        if k[0] == "%": return ("r", k), i + 1
        if k[0] == "@": return ("g", k, 0), i + 1
        if k == "null": return ("null",), i + 1
        if k == "true": return ("k", 1), i + 1
        if k == "false": return ("k", 0), i + 1
        if k in ("undef", "poison"): return ("undef",), i + 1
        if k == "zeroinitializer": return ("zero",), i + 1
        if k == "none": return ("k", 0), i + 1
        if k.startswith('c"'):
            b = k[2:-1]; out = bytearray(); j = 0
            while j < len(b):
                if b[j] == "\\":
                    if b[j + 1] == "\\": out.append(92); j += 2
                    else: out.append(int(b[j + 1:j + 3], 16)); j += 3
                else: out.append(ord(b[j])); j += 1
            return ("bytes", bytes(out)), i + 1
        if isinstance(ty, (DblT, FltT)):
            if k.startswith("0x"):
                return ("f", struct.unpack("<d", int(k[2:], 16).to_bytes(8, "little"))[0]), i + 1
            return ("f", float(k)), i + 1
        if re.fullmatch(r"-?\d+", k): return ("k", int(k)), i + 1
        if k in ("[", "{", "<"):
            if k == "<" and t[i + 1] == "{": i += 1
            i += 1; es = []
            while t[i] not in ("]", "}", ">"):
                ety, i = s.ptype(t, i)
                v, i = s.pval(t, i, ety); es.append((ety, v))
                if t[i] == ",": i += 1
            i += 1
            if i < len(t) and t[i] == ">" and k == "<" : i += 1
            return ("agg", es), i
        if k == "getelementptr":
            i += 1
            while t[i] in ("inbounds", "nuw", "nusw"): i += 1
            assert t[i] == "("; i += 1
            bty, i = s.ptype(t, i); i += 1
            pty, i = s.ptype(t, i); base, i = s.pval(t, i, pty)
            idx = []
            while t[i] == ",":
                i += 1
                if t[i] == "inrange": i += 1
                ity, i = s.ptype(t, i); v, i = s.pval(t, i, ity); idx.append(v)
            assert t[i] == ")"; i += 1
            off = s.gepoff(bty, [v[1] for v in idx])
            if base[0] == "null": return ("nulloff", off), i
            return ("g", base[1], base[2] + off), i
        if k in ("ptrtoint", "inttoptr", "bitcast", "trunc", "sub", "add"):
            return ("unsupported", k), s.skip(t, i + 1)
        raise ValueError("value? %s in %s" % (k, " ".join(t)[:300]))
    def skip(s, t, i):
        d = 0
        while True:
            if t[i] == "(": d += 1
            if t[i] == ")":
                d -= 1
                if d == 0: return i + 1
            i += 1
    def gepoff(s, ty, idx):
        off = idx[0] * ty.size
        for v in idx[1:]:
            if isinstance(ty, StructT): off += ty.offs[v]; ty = ty.es[v]
            else: off += v * ty.e.size; ty = ty.e
        return off
    def tv(s, t, i):
        ty, i = s.ptype(t, i)
        a, i = s.attrs(t, i)
        v, i = s.pval(t, i, ty)
        return (ty, v), i

    def parse(s, text):
        lines = text.split("\n")
        n = 0
        # types first
        for l in lines:
            if l.startswith("%") and " = type " in l:
                k, v = l.split(" = type ", 1); s.text_types[k.strip()] = v.strip()
        while n < len(lines):
            l = lines[n]
            if l.startswith("@"): s.pglobal(l)
            elif l.startswith("define "):
                m = n
                while lines[m] != "}": m += 1
                s.pfunc(lines[n:m]); n = m
            n += 1
    def pglobal(s, l):
        t = s.toks(l)
        name = t[0]; i = 2
        if "alias" in t[2:8]: return
        ext = False
        while t[i] not in ("global", "constant"):
            if t[i] in ("external", "extern_weak"): ext = True
            i += 1
        const = t[i] == "constant"
        i += 1
        ty, i = s.ptype(t, i)
        if ext: s.globals[name] = (ty, None, const); return
        v, i = s.pval(t, i, ty)
        s.globals[name] = (ty, v, const)
    def pfunc(s, lines):
        f = Func(); f.mod = s; f.vararg = False
        t = s.toks(lines[0]); i = 1
        while not t[i].startswith("@"):
            i += 1
        # return type: parse backwards is hard; scan from the beginning
        j = 1
        while True:
            if t[j] in ATTRS or t[j] in ("noundef",): j += 1; continue
            if t[j] in ("align", "dereferenceable", "range"):
                _, j = s.attrs(t, j); continue
            break
        f.ret, j = s.ptype(t, j)
        f.name = t[i]; i += 1
        assert t[i] == "("; i += 1
        f.params = []; f.pattrs = []
        while t[i] != ")":
            if t[i] == "...": f.vararg = True; i += 1; continue
            ty, i = s.ptype(t, i)
            a, i = s.attrs(t, i)
            nm = t[i]; i += 1
            f.params.append((ty, nm)); f.pattrs.append(a)
            if t[i] == ",": i += 1
        f.blocks = {}; f.entry = None
        cur = None
        n = 1
        # entry label: explicit or implied
        while n < len(lines):
            l = lines[n]
            n += 1
            st = l.strip()
            if not st or st.startswith(";"): continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                lab = "%" + m.group(1)
                cur = f.blocks.setdefault(lab, [])
                if f.entry is None: f.entry = lab
                continue
            if cur is None:
                # numbered: first unnamed value after the params
                lab = "%" + str(sum(1 for _ in f.params if re.fullmatch(r"%\d+", _[1])))
                cur = f.blocks.setdefault(lab, []); f.entry = lab
            if st.startswith("switch "):
                while not st.endswith("]"):
                    st += " " + lines[n].strip(); n += 1
                    if "]" in st.split(" [", 1)[1]: break
            cur.append(s.pinst(st))
        s.funcs[f.name] = f

    def pinst(s, l):
        # strip metadata
        l = re.sub(r",\s*![\w.]+ ![\w.]+", "", l)
        l = re.sub(r",\s*!\w+(\.\w+)* !\{[^}]*\}", "", l)
        t = s.toks(l)
        i = 0; dst = None
        if len(t) > 1 and t[1] == "=": dst = t[0]; i = 2
        op = t[i]; i += 1
        if op in ("tail", "musttail", "notail"): op = t[i]; i += 1
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags = set()
            while t[i] in ATTRS: flags.add(t[i]); i += 1
            ty, i = s.ptype(t, i); a, i = s.pval(t, i, ty); i += 1; b, i = s.pval(t, i, ty)
            return ("bin", dst, op, ty, a, b, "nsw" in flags)
        if op == "fneg":
            while t[i] in ATTRS: i += 1
            (ty, a), i = s.tv(t, i); return ("fneg", dst, ty, a)
        if op in ("icmp", "fcmp"):
            while t[i] in ATTRS: i += 1
            p = t[i]; i += 1
            ty, i = s.ptype(t, i); a, i = s.pval(t, i, ty); i += 1; b, i = s.pval(t, i, ty)
            return (op, dst, p, ty, a, b)
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            while t[i] in ATTRS: i += 1
            (ty, a), i = s.tv(t, i); assert t[i] == "to"; to, i = s.ptype(t, i + 1)
            return ("cast", dst, op, ty, a, to)
        if op == "getelementptr":
            while t[i] in ("inbounds", "nuw", "nusw"): i += 1
            bty, i = s.ptype(t, i); i += 1
            (pty, base), i = s.tv(t, i)
            idx = []
            while i < len(t) and t[i] == ",":
                (ity, v), i = s.tv(t, i + 1); idx.append((ity, v))
            return ("gep", dst, bty, base, idx)
        if op == "load":
            while t[i] in ("volatile", "atomic"): i += 1
            ty, i = s.ptype(t, i); i += 1
            (_, p), i = s.tv(t, i); return ("load", dst, ty, p)
        if op == "store":
            while t[i] in ("volatile", "atomic"): i += 1
            (ty, v), i = s.tv(t, i); i += 1
            (_, p), i = s.tv(t, i); return ("store", None, ty, v, p)
        if op == "alloca":
            ty, i = s.ptype(t, i); cnt = (intt(32), ("k", 1))
            if i < len(t) and t[i] == "," and t[i + 1] != "align":
                cnt, i = s.tv(t, i + 1)
            return ("alloca", dst, ty, cnt)
        if op == "phi":
            while t[i] in ATTRS: i += 1
            ty, i = s.ptype(t, i); inc = []
            while i < len(t) and t[i] in ("[", ","):
                if t[i] == ",": i += 1
                i += 1; v, i = s.pval(t, i, ty); i += 1; lab = t[i]; i += 2
                inc.append((v, lab))
            return ("phi", dst, ty, dict((lab, v) for v, lab in inc))
        if op == "select":
            while t[i] in ATTRS: i += 1
            (_, c), i = s.tv(t, i); i += 1
            (ty, a), i = s.tv(t, i); i += 1
            (_, b), i = s.tv(t, i); return ("select", dst, ty, c, a, b)
        if op == "br":
            if t[i] == "label": return ("jmp", None, t[i + 1])
            (_, c), i = s.tv(t, i); return ("br", None, c, t[i + 2], t[i + 5])
        if op == "switch":
            (ty, v), i = s.tv(t, i); i += 2; d = t[i]; i += 1
            assert t[i] == "["; i += 1; cases = {}
            while t[i] != "]":
                (_, k), i = s.tv(t, i); i += 2; cases[k[1]] = t[i]; i += 1
            return ("switch", None, ty, v, d, cases)
        if op == "ret":
            if t[i] == "void": return ("ret", None, None, None)
            (ty, v), i = s.tv(t, i); return ("ret", None, ty, v)
        if op == "unreachable": return ("unreachable", None)
        if op == "freeze":
            (ty, v), i = s.tv(t, i); return ("freeze", dst, ty, v)
        if op in ("call", "invoke"):
            while t[i] in ATTRS or t[i] in ("align", "dereferenceable", "range", "nofpclass"):
                if t[i] in ATTRS: i += 1
                else: _, i = s.attrs(t, i)
            rty, i = s.ptype(t, i)
            # optional function type
            if t[i] == "(":
                i = s.skip(t, i)
            if t[i] == "asm": return ("unsupported", dst, "asm")
            callee, i = s.pval(t, i, PTR)
            assert t[i] == "("; i += 1
            args = []
            while t[i] != ")":
                ty, i = s.ptype(t, i)
                a, i = s.attrs(t, i)
                if t[i].startswith("!"):
                    # metadata argument
                    d = 0
                    while not (d == 0 and t[i] in (",", ")")):
                        if t[i] in "({": d += 1
                        if t[i] in ")}": d -= 1
                        i += 1
                    v = ("undef",)
                else:
                    v, i = s.pval(t, i, ty)
                args.append((ty, v, a))
                if t[i] == ",": i += 1
            i += 1
            nxt = None
            if op == "invoke":
                while t[i] != "to": i += 1
                nxt = t[i + 2]
            return ("call", dst, rty, callee, args, nxt)
        if op == "extractvalue":
            (ty, v), i = s.tv(t, i); idx = [int(x) for x in t[i + 1:] if x != ","]
            return ("extractvalue", dst, ty, v, idx)
        if op == "insertvalue":
            (ty, v), i = s.tv(t, i); i += 1
            (ety, e), i = s.tv(t, i); idx = [int(x) for x in t[i + 1:] if x != ","]
            return ("insertvalue", dst, ty, v, ety, e, idx)
        if op == "extractelement":
            (ty, v), i = s.tv(t, i); i += 1
            (_, k), i = s.tv(t, i); return ("extractelement", dst, ty, v, k)
        if op == "insertelement":
            (ty, v), i = s.tv(t, i); i += 1
            (_, e), i = s.tv(t, i); i += 1
            (_, k), i = s.tv(t, i); return ("insertelement", dst, ty, v, e, k)
        return ("unsupported", dst, op)
