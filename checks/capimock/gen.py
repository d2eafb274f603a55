#!/usr/bin/env python3
"""gen.py HEADER OUT: writes a recording stand-in for every function the C header declares."""
import re, subprocess, sys
hdr, out, cc, incs = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
t = subprocess.check_output([cc, "-E", "-P", "-x", "c"] + ["-I" + i for i in incs] + [hdr], text=True)
t = re.sub(r"__attribute__\s*\(\((?:[^()]|\([^()]*\))*\)\)", " ", t)
t = re.sub(r"\s+", " ", t)
HANDLES = {"HelicsInput", "HelicsPublication", "HelicsEndpoint", "HelicsFilter", "HelicsTranslator", "HelicsCore", "HelicsBroker", "HelicsFederate",
           "HelicsApp", "HelicsFederateInfo", "HelicsQuery", "HelicsDataBuffer", "HelicsQueryBuffer", "HelicsMessage"}
o = ['#include "mock.hpp"', 'extern "C" {']
seen = set()


def split(s):
    r, d, c = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            r.append(c.strip()); c = ""
            continue
        d += ch in "([" ; d -= ch in ")]"
        c += ch
    if c.strip() and c.strip() != "void":
        r.append(c.strip())
    return r


for m in re.finditer(r"([A-Za-z_][A-Za-z0-9_ \*]*?[ \*])(helics[A-Z]\w*) ?\(", t):
    i = m.end(); d = 1
    while d:
        d += t[i] == "("; d -= t[i] == ")"; i += 1
    if t[i:i + 1].strip() not in (";", "") and not t[i:].lstrip().startswith(";"):
        continue
    name = m.group(2)
    ret = re.sub(r"\b(extern|HELICS_DEPRECATED)\b", "", m.group(1)).strip()
    if ret.startswith("typedef") or name in seen:
        continue
    seen.add(name)
    ps = []
    for k, p in enumerate(split(t[m.end():i - 1])):
        f = re.match(r"(.*)\(\s*\*\s*(\w+)\s*\)(\(.*\))$", p)
        if f:
            ps.append((p, "fn", f.group(2)))
            continue
        a = re.match(r"(.*?)(\w+)\s*(\[\s*\])?$", p)
        ty = a.group(1).replace(" ", "") + ("*" if a.group(3) else "")
        ps.append((p, ty, a.group(2)))
    sig = f'{ret} {name}({", ".join(p[0] for p in ps)})'
    b = [f'  mock::Call c("{name}");']
    post = []
    err = None
    k = 0
    cx = "2 * " if "ComplexVector" in name else ""
    while k < len(ps):
        _, ty, n = ps[k]
        nxt = ps[k + 1] if k + 1 < len(ps) else (None, None, None)
        nx2 = ps[k + 2] if k + 2 < len(ps) else (None, None, None)
        if ty == "HelicsError*":
            err = n
        elif ty == "fn":
            b.append(f'  c.fn(reinterpret_cast<void*>({n}));')
        elif ty in HANDLES:
            b.append(f'  c.handle("{ty}", {n});')
        elif ty == "char*" and nx2[1] == "int*":
            b.append(f'  c.num({nxt[2]});'); post.append(f'  c.outText({n}, {nxt[2]}, {nx2[2]});'); k += 2
        elif ty == "double*" and nxt[1] == "int" and nx2[1] == "int*":
            b.append(f'  c.num({nxt[2]});'); post.append(f'  c.outDoubles({n}, {nxt[2]}, {nx2[2]}, {"true" if cx else "false"});'); k += 2
        elif ty == "void*" and nxt[1] == "int" and nx2[1] == "int*":
            b.append(f'  c.num({nxt[2]});'); post.append(f'  c.outBytes({n}, {nxt[2]}, {nx2[2]});'); k += 2
        elif ty == "constdouble*" and nxt[1] == "int":
            b.append(f'  c.doubles({n}, {cx}{nxt[2]});'); k += 1
        elif ty in ("constvoid*", "constchar*") and nxt[1] == "int" and nxt[2] in ("inputDataLength", "stringSize"):
            b.append(f'  c.bytes({n}, {nxt[2]});'); k += 1
        elif ty == "constchar*":
            b.append(f'  c.text({n});')
        elif ty == "void*":
            b.append(f'  c.pointer({n});')
        elif ty == "double*":
            post.append(f'  c.outDouble({n});')
        elif ty in ("int*", "HelicsIterationResult*"):
            post.append(f'  c.outInt({n});')
        elif ty in ("constchar*const*", "char**", "constchar**"):
            b.append(f'  c.argv({ps[k-1][2]}, {n});')
        elif "*" in ty:
            b.append(f'  c.pointer({n});')
        elif ty == "HelicsComplex":
            b.append(f'  c.num({n}.real); c.num({n}.imag);')
        else:
            b.append(f'  c.num({n});')
        k += 1
    b.append(f'  if (c.start({err if err else "nullptr"})) {{')
    b += ["  " + x for x in post]
    b.append('  }')
    r = ret.replace(" ", "")
    if r == "void":
        pass
    elif r in HANDLES:
        b.append(f'  return c.newHandle("{r}");')
    elif r == "constchar*":
        b.append('  return c.retText();')
    elif r == "HelicsComplex":
        b.append('  HelicsComplex z; z.real = c.retDouble(); z.imag = c.retDouble(); return z;')
    elif r == "HelicsError":
        b.append('  HelicsError e; e.error_code = 0; e.message = ""; return e;')
    elif r in ("double", "HelicsTime"):
        b.append('  return c.retDouble();')
    elif r == "HelicsBool":
        b.append('  return c.retBool() ? HELICS_TRUE : HELICS_FALSE;')
    elif r == "void*":
        b.append('  return c.retPointer();')
    elif "*" in r:
        b.append('  return nullptr;')
    else:
        b.append(f'  return static_cast<{ret}>(c.retInt(){" & 3" if r == "HelicsIterationResult" else ""});')
    o.append(sig + " {\n" + "\n".join(b) + "\n}")
o.append("}")
open(out, "w").write("\n".join(o) + "\n")
print(len(seen), "functions")
