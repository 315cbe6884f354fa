#!/bin/sh
# builds every variant of the compiler that the checks use
cd "$(dirname "$0")" || exit 1
exec python3 -c '
from vlib import build as B
import os, tempfile, shutil
from vlib import run as R
for v in B.VARIANTS:
    print(v, B.build(v))
d = tempfile.mkdtemp(dir=B.WORK); R.build_rt(d); shutil.rmtree(d)
'
