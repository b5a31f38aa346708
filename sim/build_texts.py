"""Regenerates texts.json: callables whose stubs are worded alike.
{'types': {tag of a type: callables}, 'groups': [callables, ...]}
The file only weights the workloads; run as: build_texts.py SITE (an installation with a database)."""
import json
import os
import sys
import warnings

sys.path.insert(0, sys.argv[1])
warnings.simplefilter('ignore')
import universe  # noqa
from paradigm._core import signatures, stubs  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, 'pool.json')) as file:
        pool = json.load(file)
    tags = {tag for row in pool for tag in row[3]}
    worded = {}
    for name in universe.MODULES:
        try:
            module = universe.importlib.import_module(name)
        except Exception:
            continue
        for path, value in universe.callables(module):
            try:
                found = signatures.resolve_qualified_paths(value)
            except Exception:
                continue
            for m, o in found[:1]:
                for raw in stubs.raw_ast_nodes.get(m, {}).get(o, []):
                    if raw.startswith(('FunctionDef', 'AsyncFunctionDef')) or 'FunctionDef' in raw[:40]:
                        worded.setdefault(raw, {})[m, o] = f'{name}:{path}'
    types = {}
    for tag in sorted(tags):
        for m in stubs.raw_ast_nodes:
            prefix = '.'.join(m) + '.'
            if not tag.startswith(prefix):
                continue
            o = tuple(tag[len(prefix):].split('.'))
            for path, raws in stubs.raw_ast_nodes[m].items():
                if len(path) > len(o) and path[:len(o)] == o:
                    for raw in raws:
                        for where, cid in worded.get(raw, {}).items():
                            types.setdefault(tag, set()).add(cid)
    groups = sorted({tuple(sorted(found.values())[:12]) for found in worded.values() if len(found) > 1})
    with open(os.path.join(HERE, 'texts.json'), 'w') as file:
        json.dump({'types': {t: sorted(c)[:40] for t, c in sorted(types.items())}, 'groups': groups},
                  file, indent=0)
        file.write('\n')
    print(len(types), len(groups), len(tags))


main()
