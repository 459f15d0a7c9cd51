#!/usr/bin/env python3
"""rec.py fixed ID commit text | rec.py known ID key text | rec.py tech ID technique note"""
import json,sys,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k,i=sys.argv[1:3]
if k=='tech':
    p=ROOT+'/tools/techniques.json';t=json.load(open(p));t[i]={"technique":sys.argv[3],"note":sys.argv[4]}
    json.dump(dict(sorted(t.items())),open(p,'w'),indent=1)
else:
    d={"status":"fixed","property":i,"commit":sys.argv[3],"line":f"fixed: property={i} {sys.argv[3]} {sys.argv[4]}"} if k=='fixed' else {"status":"known","property":i,"key":sys.argv[3],"what":sys.argv[4]}
    open(ROOT+'/known_findings.jsonl','a').write(json.dumps(d)+"\n")
