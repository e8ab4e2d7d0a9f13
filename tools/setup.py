"""Nothing to build: checks that the interpreter and the package under test are importable."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("GCONV_REPO", "/repo"))
import numpy, torch, gconv.gnn, gconv.geometry  # noqa
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "replays"), exist_ok=True)
print("ok", torch.__version__, numpy.__version__)
