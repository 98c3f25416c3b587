#!/opt/veriftools/pyvenv/bin/python3
"""setup_cmd: checks the tool chain and builds the kernel libraries once (every check rebuilds them when the sources changed)"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import build
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for so in ex.map(lambda k: build.kernels(*k), [(d, f) for d in (2, 3) for f in ('plain', 'san')]): print(so)
