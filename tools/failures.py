"""Debug helper: run a check in this process on its cases and group the failures."""
import collections, sys, os, signal
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("VERIF_REPO","/repo")]
import mc
from mc import core, __main__ as m
cls = m.registry(sys.argv[1])
stride = int(sys.argv[2]) if len(sys.argv) > 2 else 1
depth = int(sys.argv[3]) if len(sys.argv) > 3 else 2
signal.signal(signal.SIGALRM, core._on_alarm)
sys.setrecursionlimit(4000)
import resource
resource.setrlimit(resource.RLIMIT_AS, (core.MEM_LIMIT, core.MEM_LIMIT))
c = cls("quick"); c.setup()
groups = collections.OrderedDict(); n = 0
for i, case in enumerate(c.cases()):
    if i % stride: continue
    n += 1
    r = core.execute(c, case)
    if r is None or r is core.Skip: continue
    groups.setdefault(case[:depth], []).append((case, r))
print(n, "cases")
for k, v in groups.items():
    print(k, len(v), str(v[0][0])[:150]); print("     ", v[0][1].strip()[-int(os.environ.get('W', 250)):].replace("\n", "\n      "))
