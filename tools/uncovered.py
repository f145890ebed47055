#!/usr/bin/env python3
"""functions of the library no check's evidence names"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for p in glob.glob(V + "/evidence/C*.json"):
    seen |= set(json.load(open(p))["coverage"]["functions_encoded"])
for r, d, fs in os.walk("/repo/gradslam"):
    for f in fs:
        if f.endswith(".py"):
            t = ast.parse(open(r + "/" + f).read())
            rel = os.path.relpath(r + "/" + f, "/repo")
            def walk(n, pre):
                for c in n.body:
                    if isinstance(c, ast.ClassDef):
                        walk(c, pre + c.name + ".")
                    elif isinstance(c, ast.FunctionDef):
                        if rel + ":" + pre + c.name not in seen:
                            print(rel + ":" + pre + c.name, c.end_lineno - c.lineno)
            walk(t, "")
