"""For each seeded bug, the removed lines which are not lines of the base commit."""
import subprocess, re, sys, glob
base = subprocess.run("git -C /repo log --reverse --format=%h --abbrev=40".split(), capture_output=True, text=True).stdout.split()[0]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f=None; orig=new=0
    for l in open(p):
        if l.startswith("--- a/"):
            f=l[6:].strip()
            bl = subprocess.run(["git","-C","/repo","blame","-l","-s","--root","HEAD","--",f],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-"):
            if bl[n-1].split()[0].lstrip("^")[:39]==base[:39]: orig+=1
            else: new+=1
            n+=1
        elif l.startswith(" "): n+=1
    print(p.split("/")[-2], "orig",orig,"mine",new)
