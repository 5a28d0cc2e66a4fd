"""Helper used by hand: appends a 'fixed' entry.  kf.py PROP COMMIT WHAT"""
import json, sys
e = dict(property=sys.argv[1], status="fixed", commit=sys.argv[2], what=sys.argv[3],
         line=f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
open("/verif/known_findings.jsonl", "a").write(json.dumps(e) + "\n")
