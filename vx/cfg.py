import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, "build"))
MONO = os.path.join(BUILD, "mono")
TARGET = os.path.join(BUILD, "target")
SEED_TARGET = "/opt/vp/work/target"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
