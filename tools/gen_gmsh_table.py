#!/usr/bin/env python3
"""Write harness/c40_table.inc: stand-ins for the CAD library and one entry per call of the interface.

Needed only when the CAD library itself changes; the checks use the committed table.
"""
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# declared, but commented out in the source
NOT_PROVIDED = ("getAttributeNames", "setAttribute", "removeDuplicateElements", "removeAttribute", "getAttribute", "addSpline", "computeHomology", "addThruSections")


def parse(path, root):
    text = open(path).read()
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"^\s*#[^\n]*", "", text, flags=re.M)
    text = text.replace("GMSH_API", " ")
    stack, buf, out = [], "", []
    for ch in text:
        if ch == "{":
            m = re.search(r"namespace\s+([\w:]+)\s*$", buf)
            stack.append(m.group(1) if m else None)
            buf = ""
        elif ch == "}":
            stack.pop()
            buf = ""
        elif ch == ";":
            d = " ".join(buf.split())
            buf = ""
            m = re.match(r"^(void|int|double)\s+(\w+)\s*\((.*)\)$", d)
            if m and None not in stack:
                ns = "::".join(stack)
                assert ns.startswith(root)
                out.append((ns[len(root):].lstrip(":"), m.group(1), m.group(2), params(m.group(3))))
        else:
            buf += ch
    return out


def params(s):
    res, depth, cur = [], 0, ""
    for ch in s:
        if ch in "(<":
            depth += 1
        if ch in ")>":
            depth -= 1
        if ch == "," and depth == 0:
            res.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        res.append(cur)
    out = []
    for p in res:
        default = "=" in p
        p = p.split("=")[0].strip()
        m = re.match(r"^(.*?)(\w+)$", p)
        t = m.group(1).strip()
        t = re.sub(r"\bgmsh::vectorpair", "vectorpair", t)
        t = t.replace("vectorpair", "std::vector<std::pair<int, int>>")
        t = re.sub(r"\s*([<>&*,])\s*", r"\1", t)
        out.append((t, default))
    return out


def plain(t):
    return re.sub(r"^const ", "", t).rstrip("&")


def main():
    theirs = parse("/usr/include/gmsh.h", "gmsh")
    ours = {(n, f): (r, p) for n, r, f, p in parse("/repo/include/um2/gmsh/base_gmsh_api.hpp", "um2::gmsh")}
    lines = ["// Written by tools/gen_gmsh_table.py", "// clang-format off"]
    rows = []
    for ns, ret, name, ps in theirs:
        full = (ns + "::" if ns else "") + name
        if (ns, name) not in ours or name in NOT_PROVIDED:
            continue
        oret, ops = ours[(ns, name)]
        if oret != ret or [p[0] for p in ops] != [p[0] for p in ps][:len(ops)] or not all(p[1] for p in ps[len(ops):]):
            print("signature", full, [p[0] for p in ops], [p[0] for p in ps])
            continue
        args = ", ".join(f"{t} a{i}" for i, (t, _) in enumerate(ps))
        body = f'Call c("{full}");'
        for i, (t, _) in enumerate(ps):
            inp = not t.endswith("&") or t.startswith("const ")
            body += f" c.{'in' if inp else 'out'}(a{i});"
        body += " c.end();"
        if ret != "void":
            body += f" return c.result<{ret}>();"
        lines.append(f"namespace gmsh{'::' + ns if ns else ''} {{ {ret} {name}({args}) {{ {body} }} }}")
        first = next((i for i, p in enumerate(ps) if p[1]), len(ps))
        # the interface may leave trailing arguments to the library
        first = min(first, len(ops))
        ofirst = next((i for i, p in enumerate(ops) if p[1]), len(ops))
        if first != ofirst:
            print("defaults", full, first, ofirst)
        for n in range(max(first, ofirst), len(ops) + 1):
            decl = " ".join(f"auto a{i} = g.make<{plain(t)}>({i});" for i, (t, _) in enumerate(ps[:n]))
            call = ", ".join(f"a{i}" for i in range(n))
            outs = " ".join(f"g.see(a{i});" for i, (t, _) in enumerate(ps[:n]) if t.endswith("&") and not t.startswith("const "))
            res = "g.see(" if ret != "void" else "("
            one = lambda pre: f"{res}{pre}{full}({call}));"
            rows.append(f'  {{"{full}", {n}, [](Gen & g, bool direct) {{ {decl} if (direct) {{ {one("::gmsh::")} }} else {{ {one("um2::gmsh::")} }} {outs} }}}},')
    lines.append("static Entry const TABLE[] = {")
    lines += rows
    lines.append("};")
    open(os.path.join(HERE, "harness", "c40_table.inc"), "w").write("\n".join(lines) + "\n")
    print(len(theirs), "functions", len(rows), "entries")


main()
