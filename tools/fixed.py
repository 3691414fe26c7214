"""append `fixed` entries: python3 tools/fixed.py PXX SUBSTRING... (commits whose subject contains the substring)"""
import json
import subprocess
import sys
pid, subs = sys.argv[1], sys.argv[2:]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
have = open('KNOWN_FINDINGS.jsonl').read()
with open('KNOWN_FINDINGS.jsonl', 'a') as f:
    for l in reversed(log):
        h, s = l.split(' ', 1)
        if s.startswith('fix: ') and any(x in s for x in subs) and h not in have:
            f.write(json.dumps({"kind": "fixed", "property": pid, "fixed": f"fixed: property={pid} {h} {s[5:]}"}, separators=(',', ':')) + "\n")
            print(h, s)
