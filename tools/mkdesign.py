#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, the checks' own rules, tools/oracles.json, seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
O = json.load(open(V + "/tools/oracles.json")); C = json.load(open(V + "/tools/caught.json"))
t = ""
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f = V + "/checks/%s.cpp" % i
    t += "### %s %s\n\n" % (i, p["title"])
    if not os.path.exists(f):
        t += "Not claimed: %s\n\n" % O.get(i, {}).get("na", "no check built yet"); continue
    s = open(f).read(); g = lambda r: (re.search(r, s) or [None, "?"])[1]
    t += "* Generated: %s.\n" % bytes(g(r'p\.rule = "((?:[^"\\]|\\.)*)"'), "utf8").decode("unicode_escape").replace("\n", " ").rstrip(".")
    t += "* Oracle: %s\n" % O.get(i, {}).get("oracle", "see the check")
    t += "* Cases: %s quick, %s thorough%s.\n" % (g(r"p\.quick = (\d+)"), g(r"p\.thorough = (\d+)"), O.get(i, {}).get("cost", ""))
    for a in re.findall(r'"((?:[^"\\]|\\.)*)"', (re.search(r"p\.assumptions = \{(.*?)\};", s, re.S) or ["", ""])[1]): t += "* Assumes: %s.\n" % a
    if O.get(i, {}).get("limits"): t += "* Not covered: %s\n" % O[i]["limits"]
    t += "\n"
b = "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d)); b += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"], C.get(d, "?"))
k = open(V + "/known_findings.txt").read()
fx = "".join("* %s `%s` %s\n" % (m[1], m[2], m[3]) for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", k, re.M))
fi = "".join("* %s (%s): %s\n" % (m[2], m[1], m[3]) for m in re.finditer(r"^finding: property=(\S+) id=(\S+) (.*)$", k, re.M))
s = open(V + "/tools/design.md.in").read()
for a, x in (("PROPS", t), ("BUGS", b), ("FIXED", fx), ("FINDINGS", fi)): s = s.replace("@@%s@@" % a, x.rstrip("\n"))
open(V + "/DESIGN.md", "w").write(s)
