#!/opt/venv/bin/python
"""setup: the framework is plain Python; check that its dependencies are here."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch          # noqa
import vt.smt         # noqa
print("ok", torch.__version__)
