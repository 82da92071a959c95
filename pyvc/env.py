"""Interpreter set-up: run under /opt/venv (the project's interpreter) with the verification tools' packages appended."""
import sys
import warnings
warnings.filterwarnings('ignore')
for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if p not in sys.path:
        sys.path.append(p)
sys.setrecursionlimit(5000)
