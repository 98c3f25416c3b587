"""run under the system python: nctool.py <utils> <script> <out.npz> args... -- runs the script as the shell would and hands over what it wrote"""
import sys, os, runpy, io, contextlib, traceback
sys.dont_write_bytecode = True
utils, script, out = sys.argv[1:4]
args = sys.argv[4:]
import numpy as np, netCDF4
sys.path[0] = utils
sys.argv = [os.path.join(utils, script)] + args
o = io.StringIO(); code = 0; err = ''
with contextlib.redirect_stdout(o):
    try: runpy.run_path(sys.argv[0], run_name='__main__')
    except SystemExit as e: code = e.code if isinstance(e.code, int) else 1 if e.code else 0
    except BaseException as e: code = 99; err = traceback.format_exc()
r = {'@out': np.array(o.getvalue()), '@code': np.array(code), '@err': np.array(err)}
f = [a for a in args if a.endswith('.nc')]
if f and os.path.exists(f[-1]) and code == 0:
    d = netCDF4.Dataset(f[-1])
    r['@dims'] = np.array(['%s=%d' % (k, len(v)) for k, v in d.dimensions.items()])
    for k, v in d.variables.items():
        r[k] = np.ma.filled(v[...], np.nan) if v.dtype.kind == 'f' else np.asarray(v[...])
        r['@of ' + k] = np.array([str(v.dtype)] + list(v.dimensions))
np.savez(out, **r)
