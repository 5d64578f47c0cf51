import os, sys

sys.dont_write_bytecode = True
REPO = os.environ.get("ACLTK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(REPO, "lib"))
