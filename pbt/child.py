"""Child process of C27: reads tasks (JSON lines) and answers them. argv: names of top-level modules that are to be missing."""
import json
import os
import sys

BLOCK = set(sys.argv[1:])
sys.path[:] = [p for p in sys.path if p != os.path.dirname(os.path.abspath(__file__))]


class Missing:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in BLOCK:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


sys.meta_path.insert(0, Missing())
import importlib.util  # noqa: E402

spec = importlib.util.spec_from_file_location("vp_tasks", os.path.join(os.path.dirname(os.path.abspath(__file__)), "tasks.py"))
tasks = importlib.util.module_from_spec(spec)
spec.loader.exec_module(tasks)
real = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # whatever else prints must not disturb the protocol
for line in sys.stdin:
    t = json.loads(line)
    real.write(json.dumps(tasks.run(t)) + "\n")
    real.flush()
