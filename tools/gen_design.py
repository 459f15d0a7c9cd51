#!/usr/bin/env python3
"""Fill DESIGN.md from DESIGN.in.md: per-property sections from properties.jsonl, techniques.json, the comments above
each explored section in pv/src, and the counts of the last quick run (evidence/); repairs from known_findings.jsonl;
planted bugs from seeded/*/meta.json and tools/bugs.json."""
import json, re, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
tech = json.load(open(R + "/tools/techniques.json"))
src = {f: open(f).read() for f in sorted(glob.glob(R + "/pv/src/p_*.rs"))}
main = open(R + "/pv/src/main.rs").read()
sec = {}  # (file, section) -> (comment, position)
for f, s in src.items():
    lines = s.split("\n")
    for i, l in enumerate(lines):
        m = re.search(r'\.explore\(\s*"([^"]+)"', l) or (re.search(r'\.explore\($', l) and re.search(r'"([^"]+)"', lines[i + 1]))
        if m:
            j, c = i - 1, []
            while j >= 0 and lines[j].strip().startswith("//"):
                c.insert(0, lines[j].strip().lstrip("/").strip())
                j -= 1
            sec.setdefault(m.group(1), []).append((f, " ".join(c), i))
def human(n):
    return f"{n/1e6:.1f} M" if n >= 1e6 else f"{n/1e3:.0f} k" if n >= 1e4 else str(n)
out = []
for p in props:
    i = p["id"]
    t = tech[i]
    arm = re.search(r'"%s" => (.*)' % i, main).group(1)
    mods = re.findall(r'(p_\w+)::', arm)
    out.append(f"### {i} — {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"*Decided by*: {t['technique']}. {t['note']}\n")
    out.append(f"*Beyond the tests because*: {p['why_tests_cant']}\n")
    ev = json.load(open(f"{os.environ.get('EV', R + '/evidence')}/{i}.json"))
    assert ev["tier"] == "quick", i
    c = ev["coverage"]
    out.append(f"*Quick run*: {human(c['executions'])} executions ({human(c['executions_out_of_scope'])} judged out of scope by the reference), {human(c['states'])} states, {human(c['transitions'])} transitions, {human(c['distinct_outcomes'])} distinct outcomes.\n")
    for a in ev["assumptions"]:
        out.append(f"* assumed: {a}")
    for n, s in c["sections"].items():
        cand = [x for x in sec.get(n, []) if os.path.basename(x[0])[:-3] in mods] or sec.get(n, [])
        fs = {x[1] for x in cand if x[1]}
        com = " / ".join(sorted(fs)) if len(fs) <= 2 else ""
        out.append(f"* `{n}`{': ' + com if com else ''} ({human(s['executions'])} executions)")
    out.append("")
kf = [json.loads(l) for l in open(R + "/known_findings.jsonl")]
fnd = ["Known findings (listed, not repaired):\n"]
for k in kf:
    if k["status"] == "known":
        fnd.append(f"* {k['property']} `{k['key']}`: {k['what']}")
fnd.append("\nRepairs (each one `fix:` commit; the check reports the violation again if the repair is undone):\n")
for k in kf:
    if k["status"] == "fixed":
        fnd.append("* " + k["line"].replace("fixed: property=", ""))
bugs = json.load(open(R + "/tools/bugs.json")) if os.path.exists(R + "/tools/bugs.json") else {}
b = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    b.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {bugs.get(n, m['property'] + ' check')} |")
s = open(R + "/tools/DESIGN.in.md").read()
for k, v in (("@@PROPS@@", out), ("@@FINDINGS@@", fnd), ("@@BUGS@@", b)):
    assert k in s
    s = s.replace(k, "\n".join(v))
open(R + "/DESIGN.md", "w").write(s)
