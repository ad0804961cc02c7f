"""Report the seeded changes that touch lines added by our own fix commits."""
import re, subprocess
from pathlib import Path
ROOT = Path(__file__).resolve().parents[1]
base = subprocess.check_output(["git","-C","/repo","rev-parse","e5105fb"],text=True).strip()
for p in sorted((ROOT/"seeded").iterdir()):
    text=(p/"patch.diff").read_text()
    f=None; ours=orig=0
    for line in text.splitlines():
        if line.startswith("--- a/"): f=line[6:]; continue
        m=re.match(r"@@ -(\d+)",line)
        if m: n=int(m[1]); continue
        if line.startswith("+++") or line.startswith("diff") or line.startswith("index"): continue
        if line.startswith("-"):
            out=subprocess.check_output(["git","-C","/repo","blame","-l","-s",f"-L{n},{n}","HEAD","--",f],text=True)
            if out.lstrip("^").startswith(base[:30]): orig+=1
            else: ours+=1
            n+=1
        elif line.startswith(" "): n+=1
    res=subprocess.run(["git","-C","/repo","apply","--check",str(p/"patch.diff")])
    flag = "" if ours==0 and orig else "  <-- check"
    if res.returncode: flag += " DOES NOT APPLY"
    print(p.name, orig, ours, flag)
