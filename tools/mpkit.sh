#!/bin/bash
# mpkit.sh ID: puts what a demonstration on the multiphysics application needs beside it (stand-in headers, build and run
# helpers), so that demo.py can say: from kit import *
V=$(dirname "$(dirname "$(readlink -f "$0")")"); d=$V/seeded/$1; mkdir -p $d/kit/lib $d/kit/shim
cp -a $V/shim/include $d/kit/shim/; cp $V/lib/{vf,fierro,problems,meshio}.py $d/kit/lib/
cat > $d/kit.py <<'P'
import atexit, os, shutil, subprocess, sys, tempfile
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "kit", "lib"))
import numpy as np, fierro as F, problems as P
class C:
    tmp = tempfile.mkdtemp()
    def sh(self, a):
        subprocess.run(a, check=True)
    def fail(self, what):
        print("FAILED:", what); sys.exit(1)
g = C()
atexit.register(shutil.rmtree, g.tmp, True)
B = F.build(g, flags=("-O0",))
def run(deck, files=None, **kw):
    return F.ok(g, F.run(B, deck, g, files=files, **kw))
P
printf '#!/bin/bash\nexec python3-vt "$(dirname "$(readlink -f "$0")")/demo.py"\n' > $d/demo.sh
