"""Regenerates pool.json: callables of the standard library with the cost of their first query.
The pool only weights the workloads; run as: build_pool.py SITE (an installation with a database)."""
import gc, importlib, json, os, pickle, sys, warnings
warnings.simplefilter('ignore')
import canon, universe
import paradigm.base as b
HERE=os.path.dirname(b.__file__)
def forked(f):
    r,w=os.pipe(); pid=os.fork()
    if not pid:
        os.close(r)
        try: v=f()
        except BaseException as e: v=('ERR',repr(e))
        with os.fdopen(w,'wb') as fh: pickle.dump(v,fh)
        os._exit(0)
    os.close(w)
    with os.fdopen(r,'rb') as fh: d=fh.read()
    os.waitpid(pid,0); return pickle.loads(d)
def measure(v):
    n=[0]
    def loc(fr,ev,arg):
        n[0]+=1
        return loc
    def tr(fr,ev,arg):
        return loc if fr.f_code.co_filename.startswith(HERE) else None
    from paradigm._core.arboreal import evaluation as ev
    fc=[f for f in ev.evaluate_statement_node.registry.values() if f.__kwdefaults__][0].__kwdefaults__['cache']
    oc=ev.evaluate_qualified_path.__kwdefaults__['objects_cache']
    before=set(fc)|set(oc)
    sys.settrace(tr)
    try: s=b.signature_from_callable(v)
    except Exception as e:
        sys.settrace(None); return n[0],'EXC '+type(e).__name__,[]
    sys.settrace(None)
    c=canon.signature(s)
    tags=sorted('.'.join(m+o) for m,o in (set(fc)|set(oc))-before)
    return n[0],str(hash(c)),tags
def module(name):
    m=importlib.import_module(name)
    return [(name,p)+forked(lambda:measure(v)) for p,v in universe.callables(m) if not p.startswith('_') or m.__name__ in ('os','random')]
def merge(paths):
    """Keeps every callable that evaluates cached types, and a sample of the rest."""
    import random
    rng=random.Random(0)
    rows=[]
    for p in paths: rows+=json.load(open(p))
    keep={}
    for m,p,n,h,tags in sorted(rows,key=str):
        if h.startswith('EXC') and rng.random()>.2: continue
        if (tags and keep.setdefault((h,tuple(tags)),0)<2) or rng.random()<.12:
            keep[h,tuple(tags)]=keep.get((h,tuple(tags)),0)+1
            yield [m,p,n,tags]
if __name__=='__main__':
    if sys.argv[1]=='merge':
        rows=list(merge(sys.argv[3:]))
        with open(sys.argv[2],'w') as f: f.write('[\n'+',\n'.join(json.dumps(r) for r in rows)+'\n]\n')
        print(len(rows)); sys.exit()
    out=[]
    shard,n=int(sys.argv[1]),int(sys.argv[2])
    for i,name in enumerate(universe.MODULES):
        if i%n==shard:
            try: out+=forked(lambda:module(name))
            except Exception as e: print(name,e,file=sys.stderr)
    json.dump(out,open(sys.argv[3],'w'))
