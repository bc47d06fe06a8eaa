"""Stand-in for cxx's code generators: reads the #[cxx::bridge] module of a
lib.rs and writes the library with the module expanded, the C++ header and the
C++ glue.  Struct fields and function arguments keep their declared order, as
in cxx."""
import re, sys


class Unsupported(Exception):
    pass


CXX = {"f64": "double", "f32": "float", "usize": "size_t", "isize": "::rust::isize", "bool": "bool", "String": "::rust::String",
       **{f"{s}{n}": f"{'u' if s == 'u' else ''}int{n}_t" for s in "iu" for n in (8, 16, 32, 64)}}


def split(s):
    """Splits at top-level commas."""
    out, cur, d = [], "", 0
    for c in s:
        d += c in "([{<"
        d -= c in ")]}"
        d -= c == ">" and not cur.endswith("-")
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def braces(s, i):
    d = 0
    for j in range(i, len(s)):
        d += s[j] == "{"
        d -= s[j] == "}"
        if d == 0:
            return j
    raise Unsupported("braces")


def cxx(t, ns):
    """The C++ type (by value) of a Rust type."""
    t = t.strip()
    if t in CXX:
        return CXX[t]
    m = re.fullmatch(r"Vec\s*<(.*)>", t)
    if m:
        return f"::rust::Vec<{cxx(m[1], ns)}>"
    m = re.fullmatch(r"fn\s*\((.*)\)", t)
    if m:
        return "::rust::Fn<void(" + ", ".join(cxx(a.split(":", 1)[-1] if re.match(r"\w+\s*:[^:]", a) else a, ns) for a in split(m[1])) + ")>"
    if re.fullmatch(r"\w+", t):
        return f"::{ns}::{t}"
    raise Unsupported(t)


def expand(src):
    m = re.search(r"#\[\s*cxx::bridge\s*(?:\(([^\]]*)\))?\s*\]\s*(pub\s+)?mod\s+(\w+)\s*\{", src)
    if not m:
        raise Unsupported("no bridge")
    ns = re.search(r'namespace\s*=\s*"?([\w:]+)"?', m[1] or "")
    ns = ns[1] if ns else "vpx_global"
    end = braces(src, m.end() - 1)
    body = re.sub(r"//[^\n]*", "", src[m.end():end])
    body = re.sub(r"/\*.*?\*/", "", body, flags=re.S)
    structs, types, fns, includes = [], [], [], []
    i = 0
    while True:
        body = body[i:].lstrip()
        if not body:
            break
        attrs = ""
        while body.startswith("#"):
            a = re.match(r"#\[(.*?)\]", body, re.S)
            attrs += a[1] + ";"
            body = body[a.end():].lstrip()
        a = re.match(r"(?:pub\s+)?struct\s+(\w+)\s*\{", body)
        if a:
            e = braces(body, a.end() - 1)
            fields = []
            for f in split(body[a.end():e]):
                f = re.sub(r"^(#\[.*?\]\s*)*(pub\s+)?", "", f)
                n, t = f.split(":", 1)
                fields.append((n.strip(), t.strip()))
            structs.append((a[1], fields, [d for d in re.findall(r"\w+", " ".join(re.findall(r"derive\((.*?)\)", attrs)))]))
            i = e + 1
            continue
        a = re.match(r'(?:unsafe\s+)?extern\s+"C\+\+"\s*\{', body)
        if not a:
            raise Unsupported(body[:80])
        e = braces(body, a.end() - 1)
        for it in re.sub(r"#\[.*?\]", "", body[a.end():e], flags=re.S).split(";"):
            it = it.strip()
            if not it:
                continue
            if x := re.match(r'include!\s*\(\s*"(.*?)"\s*\)', it):
                includes.append(x[1])
            elif x := re.match(r"(?:pub\s+)?type\s+(\w+)$", it):
                types.append(x[1])
            elif x := re.match(r"(?:pub\s+)?(?:unsafe\s+)?fn\s+(\w+)\s*\((.*)\)\s*(?:->\s*(.*))?$", it, re.S):
                # the argument list ends at the last parenthesis before "->"
                head = re.match(r"(?:pub\s+)?(?:unsafe\s+)?fn\s+(\w+)\s*\(", it)
                d = 1
                for j in range(head.end(), len(it)):
                    d += it[j] == "("
                    d -= it[j] == ")"
                    if d == 0:
                        break
                args = [tuple(y.strip() for y in z.split(":", 1)) for z in split(it[head.end():j])]
                ret = it[j + 1:].strip()
                ret = ret[2:].strip() if ret.startswith("->") else "()"
                fns.append((head[1], args, ret))
            else:
                raise Unsupported(it)
        i = e + 1

    names = {s[0] for s in structs}
    rs, hh, cc, tramps = [], [], [], []
    hh += ["#pragma once", "#include <rust/cxx.h>", *[f'#include "{x}"' for x in includes], f"namespace {ns} {{"]
    hh += [f"struct {s[0]};" for s in structs]
    for n, fields, _ in structs:
        hh.append(f"struct {n} final {{ " + " ".join(f"{cxx(t, ns)} {f};" for f, t in fields) + " };")
    hh += ["}", "namespace vpx {"]
    for n, fields, _ in structs:
        q = f"::{ns}::{n}"
        hh.append(f"template <> struct Wire<{q}> {{ static void put(Words& b, const {q}& v); static {q} get(const uint64_t*& r); }};")
    for n, fields, _ in structs:
        q = f"::{ns}::{n}"
        puts = " ".join(f"Wire<{cxx(t, ns)}>::put(b, v.{f});" for f, t in fields)
        gets = " ".join(f"v.{f} = Wire<{cxx(t, ns)}>::get(r);" for f, t in fields)
        hh.append(f"inline void Wire<{q}>::put(Words& b, const {q}& v) {{ {puts} }}")
        hh.append(f"inline {q} Wire<{q}>::get(const uint64_t*& r) {{ {q} v; {gets} return v; }}")
    hh.append("}")
    cc += ['#include "trajoptlib/src/lib.rs.h"', 'extern "C" void vpx_free(uint64_t* p) { std::free(p); }',
           "void* vpx_last_made = nullptr;"]

    rs += ["#[allow(dead_code, unused_imports, improper_ctypes, clippy::all)]", f"{m[2] or ''}mod {m[3]} {{",
           "use std::pin::Pin; use cxx::UniquePtr; use cxx::wire::Wire;"]
    for n, fields, derives in structs:
        keep = [d for d in derives if d not in ("Serialize", "Deserialize", "ExternType")]
        if keep:
            rs.append(f"#[derive({', '.join(keep)})]")
        rs.append(f"pub struct {n} {{ " + " ".join(f"pub {f}: {t}," for f, t in fields) + " }")
        rs.append(f"impl Wire for {n} {{ fn put(&self, b: &mut Vec<u64>) {{ " + " ".join(f"self.{f}.put(b);" for f, _ in fields)
                  + f" }} fn get(r: &mut &[u64]) -> Self {{ " + " ".join(f"let {f} = Wire::get(r);" for f, _ in fields)
                  + f" {n} {{ " + ", ".join(f for f, _ in fields) + " } } }")
    for t in types:
        rs.append(f"#[repr(C)] pub struct {t} {{ _o: cxx::Opaque }}")
        rs.append(f'impl cxx::Target for {t} {{ fn drop_it(p: *mut Self) {{ extern "C" {{ fn vpx_drop_{t}(p: *mut {t}); }} unsafe {{ vpx_drop_{t}(p) }} }} }}')
        cc.append(f'extern "C" void vpx_drop_{t}(::{ns}::{t}* p) {{ delete p; }}')
    for name, args, ret in fns:
        recv = None
        if args:
            if x := re.fullmatch(r"Pin\s*<\s*&\s*mut\s+(\w+)\s*>", args[0][1]) if args[0][0] == "self" else None:
                recv = (x[1], "mut")
            elif args[0][0] == "self" and (x := re.fullmatch(r"&\s*(\w+)", args[0][1])):
                recv = (x[1], "const")
            elif args[0][0] == "self":
                raise Unsupported(str(args[0]))
        rest = args[1:] if recv else args
        sym = f"vpx_call_{recv[0] + '_' if recv else ''}{name}"
        fallible = re.fullmatch(r"Result\s*<(.*)>", ret)
        val = (fallible[1] if fallible else ret).strip()
        uptr = re.fullmatch(r"UniquePtr\s*<\s*(\w+)\s*>", val)
        # Rust side
        puts = []
        cargs = []
        for n, t in rest:
            byref = t.startswith("&")
            base = re.sub(r"^&\s*", "", t).strip()
            if base.startswith("fn"):
                inner = split(re.fullmatch(r"fn\s*\((.*)\)", base, re.S)[1])
                inner = [a.split(":", 1)[-1].strip() if re.match(r"\w+\s*:[^:]", a) else a for a in inner]
                k = f"vpx_tramp_{name}_{n}"
                tramps.append(f'extern "C" fn {k}(f: usize, p: *const u64, n: usize) {{ unsafe {{ '
                              f"let f: fn({', '.join(inner)}) = std::mem::transmute(f); let mut r = if n == 0 {{ &[][..] }} else {{ std::slice::from_raw_parts(p, n) }}; "
                              + " ".join(f"let a{j}: {a} = Wire::get(&mut r);" for j, a in enumerate(inner))
                              + f" f({', '.join(f'a{j}' for j in range(len(inner)))}) }} }}")
                puts.append(f"({k} as extern \"C\" fn(usize, *const u64, usize) as usize).put(&mut vpx_b); ({n} as {base} as usize).put(&mut vpx_b);")
            else:
                puts.append(f"{n}.put(&mut vpx_b);")
            cargs.append(f"auto {n} = vpx::Wire<{cxx(base, ns)}>::get(vpx_r);")
        rret = f"std::result::Result<{val}, cxx::Exception>" if fallible else ret
        sig = ", ".join(([f"self: {'Pin<&mut Self>' if recv[1] == 'mut' else '&Self'}"] if recv else []) + [f"{n}: {t}" for n, t in rest])
        this = ("unsafe { self.get_unchecked_mut() as *mut Self as usize }" if recv[1] == "mut" else "self as *const Self as usize") if recv else "0usize"
        take = f"cxx::answer::<usize>(vpx_p, vpx_n).map(|x| UniquePtr::from_raw(x as *mut {uptr[1]}))" if uptr else f"cxx::answer::<{val}>(vpx_p, vpx_n)"
        body_rs = (f"pub fn {name}({sig}) -> {rret} {{ extern \"C\" {{ fn {sym}(me: usize, a: *const u64, n: *mut usize) -> *mut u64; }} "
                   f"let mut vpx_b: Vec<u64> = Vec::new(); {' '.join(puts)} let vpx_me = {this}; let mut vpx_n = 0usize; "
                   f"unsafe {{ let vpx_p = {sym}(vpx_me, vpx_b.as_ptr(), &mut vpx_n); {take}{'' if fallible else '.unwrap()'} }} }}")
        rs.append(f"impl {recv[0]} {{ {body_rs} }}" if recv else body_rs)
        # C++ side
        call = f"vpx_self->{name}" if recv else f"::{ns}::{name}"
        passed = ", ".join(n if t.startswith("&") or re.sub(r"\s", "", t) in CXX else f"std::move({n})" for n, t in rest)
        slf = f"auto* vpx_self = reinterpret_cast<{'const ' if recv[1] == 'const' else ''}::{ns}::{recv[0]}*>(vpx_me);" if recv else ""
        if uptr:
            out = f"auto* vpx_v = {call}({passed}).release(); vpx_last_made = vpx_v; vpx_b.push_back(reinterpret_cast<uint64_t>(vpx_v));"
        elif val == "()":
            out = f"{call}({passed});"
        else:
            out = f"vpx::Wire<{cxx(val, ns)}>::put(vpx_b, {call}({passed}));"
        noexc = '' if fallible else ' noexcept'
        cc.append(f'extern "C" uint64_t* {sym}(uint64_t vpx_me, const uint64_t* vpx_r, size_t* vpx_n){noexc} {{ vpx::Words vpx_b{{0}}; {slf} {" ".join(cargs)} '
                  + (f"try {{ {out} }} catch (const std::exception& e) {{ return vpx::Failure(e.what(), vpx_n); }}" if fallible else out)
                  + " return vpx::Answer(vpx_b, vpx_n); }")
    rs += tramps + ["}"]
    lib = src[:m.start()] + "\n".join(rs) + src[end + 1:]
    return lib, "\n".join(hh) + "\n", "\n".join(cc) + "\n"


if __name__ == "__main__":
    for x in expand(open(sys.argv[1]).read()):
        print(x)
        print("=" * 40)
