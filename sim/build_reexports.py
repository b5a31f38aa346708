"""Regenerates reexports.json: for every module, the modules that hold objects defined in it."""
import contextlib, importlib, io, json, os, sys, warnings
warnings.simplefilter('ignore')
from paradigm._core.discovery import supported_stdlib_modules_paths as S
SKIP={'antigravity','this','idlelib','turtledemo','__hello__','__phello__','tkinter','turtle','lib2to3'}
mods={}
for p in sorted(S):
    if p[0] in SKIP: continue
    try:
        with contextlib.redirect_stdout(io.StringIO()): mods['.'.join(p)]=importlib.import_module('.'.join(p))
    except BaseException: pass
out={}
for n,m in mods.items():
    for v in list(vars(m).values()):
        o=getattr(v,'__module__',None)
        if isinstance(o,str) and o!=n and o in mods: out.setdefault(o,set()).add(n)
        if isinstance(v,type(sys)) and v.__name__ in mods and v.__name__!=n: out.setdefault(v.__name__,set()).add(n)
with open('reexports.json','w') as f:
    json.dump({k:sorted(v) for k,v in sorted(out.items())},f,indent=0)
print(len(out))
