"""Parses every specification once (SANY); nothing needs to be built."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
    p = subprocess.run(["java", "-DTLA-Library=" + os.path.join(here, "spec"), "-cp", cp, "tla2sany.SANY", f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "rror" not in p.stdout.replace("Errors: 0", "")
    print(("ok   " if ok else "FAIL ") + os.path.basename(f))
    if not ok:
        print(p.stdout[-1500:])
        bad = 1
sys.exit(bad)
