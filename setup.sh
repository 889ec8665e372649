#!/bin/bash
# Nothing to build: the checks import POSYDON from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p evidence && chmod +x run.sh
/opt/venv/bin/python -B - <<'PY'
import sys; sys.path.insert(0, "lib")
import vk
vk.setup_env()
import posydon, numpy, pandas, scipy, h5py
import shutil, os
print("posydon imported from", os.path.dirname(posydon.__file__))
os.chdir("/"); shutil.rmtree(vk.scratch(), ignore_errors=True)
PY
