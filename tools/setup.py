"""setup_cmd: the specifications must parse; everything else is built by the checks from /repo's current tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "/opt/veriftools/tla"
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", T + "/tla2tools.jar:" + T + "/CommunityModules-deps.jar", "-DTLA-Library=" + os.path.join(V, "spec"), "tla2sany.SANY", os.path.join(V, "spec", f)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
        if p.returncode != 0:
            bad += 1
            print(f, p.stdout[-800:])
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
sys.exit(1 if bad else 0)
