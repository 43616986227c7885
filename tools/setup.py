"Offline sanity check of what the checks need: gcc, hypothesis, the harness itself."
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import shutil
import tempfile

import hypothesis

from vlib import driver

d = tempfile.mkdtemp()
try:
    driver.build_vchild(d)
finally:
    shutil.rmtree(d)
print("ok: hypothesis", hypothesis.__version__)
