#!/usr/bin/env python3
"""Lists the public data members of the library's structures, as the compiler sees them, and writes code that walks them.

  reflect.py REPO OUT.h
"""
import json
import os
import subprocess
import sys


def roots(text):
    dec, i = json.JSONDecoder(), 0
    while True:
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            return
        o, i = dec.raw_decode(text, i)
        yield o


def collect(node, path, recs):
    if node.get("kind") == "NamespaceDecl" and "name" in node:
        path = path + [node["name"]]
    if node.get("kind") == "CXXRecordDecl":
        if not node.get("completeDefinition") or "name" not in node:
            return
        path = path + [node["name"]]
        access = "private" if node.get("tagUsed") == "class" else "public"
        fields, readable = [], True
        for c in node.get("inner", []):
            if c["kind"] == "AccessSpecDecl":
                access = c["access"]
            elif c["kind"] == "FieldDecl" and access == "public" and "name" in c:
                fields.append(c["name"])
        bases = [b["type"].get("desugaredQualType", b["type"]["qualType"]) for b in node.get("bases", [])]
        recs["::".join(path)] = (fields, bases, node.get("access", "public"))
    for c in node.get("inner", []):
        if c.get("kind") in ("NamespaceDecl", "CXXRecordDecl"):
            collect(c, path, recs)


def main(repo, out):
    inc = os.path.join(repo, "include")
    src = "".join('#include "%s"\n' % n for n in sorted(os.listdir(inc)) if n.endswith(".h"))
    cmd = ["clang++", "-std=c++14", "-I" + inc, "-I" + os.path.join(repo, "src"), "-DFDUMP_DEFINE", "-DRTP_DEFINE", "-w",
           "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=h265nal", "-x", "c++", "-"]
    p = subprocess.run(cmd, input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        sys.stderr.write(p.stderr.decode("latin-1")[-3000:])
        return 1
    recs = {}
    for r in roots(p.stdout.decode()):
        collect(r, [], recs)
    # structures only: parsed results and the parser state
    keep = {n: v for n, v in recs.items() if n.endswith("State") and n.startswith("h265nal::")}
    poly = "h265nal::H265SeiPayloadParser::H265SeiPayloadState"
    derived = [n for n, v in keep.items() if poly in v[1]]
    with open(out, "w") as f:
        f.write("// made by reflect.py from the library's headers\n" + src)
        f.write("namespace vh {\n")
        for n in keep:
            f.write("inline void rwalk(Deep& d, const %s& x);\n" % n)
        for n, (fields, bases, _) in sorted(keep.items()):
            f.write("inline void rwalk(Deep& d, const %s& x) {\n" % n)
            if n == poly:
                for k in sorted(derived):
                    f.write("  if (auto* p = dynamic_cast<const %s*>(&x)) { rwalk(d, *p); return; }\n" % k)
                f.write("  d.leaf(\"unknown kind\");\n")
            else:
                for b in bases:
                    if b in keep and b != poly:
                        f.write("  rwalk(d, static_cast<const %s&>(x));\n" % b)
                f.write("  (void)d; (void)x;\n")
                for m in fields:
                    f.write("  d.field(\"%s\", x.%s);\n" % (m, m))
            f.write("}\n")
        f.write("static const size_t kReflectedStructs = %d, kReflectedFields = %d;\n}\n" % (len(keep), sum(len(v[0]) for v in keep.values())))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2]))
