#!/usr/bin/env python3
"""Regenerates harness/calls.inc: one call with default arguments for every API function that takes a state id."""
import re
s = open('/repo/libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp').read()
s = re.sub(r'/\*.*?\*/', '', s, flags=re.S); s = re.sub(r'//.*', '', s)
skip = {'allocate_state', 'is_valid_state', 'undo_state', 'redo_state', 'undo_state_count_for_id', 'clear_undo_state_for_id', 'splines_snap_to_landboundary_'}
out, n = [], 0
for m in re.finditer(r'MKERNEL_API (\w+) mkernel_(\w+)\((.*?)\);', s, flags=re.S):
    name, args = m.group(2), [re.sub(r'\s*=.*', '', re.sub(r'\s+', ' ', a)).strip() for a in re.split(r',(?![^()]*\))', m.group(3)) if a.strip()]
    if name in skip or not args or not re.match(r'int meshKernelId$', args[0]): continue
    decl, call = [], ['id']
    for i, a in enumerate(args[1:]):
        t = re.sub(r'\bconst\b', '', a.rsplit(' ', 1)[0]).strip(); v = f'a{i}'
        if t.endswith('*'):
            b = t[:-1].strip(); decl.append(f'static {b} {v}[4096] = {{}};'); call.append(v)
        elif t.endswith('&'):
            b = t[:-1].strip()
            if b == 'GeometryList': decl.append(f'Poly p{i} = Dummy(); auto& {v} = Glist(p{i});')
            elif b == 'Mesh2D' or b == 'Mesh1D' or b == 'Contacts' or b == 'CurvilinearGrid' or b == 'GriddedSamples': decl.append(f'auto {v} = Dummy{b}();')
            else: decl.append(f'{b} {v}{{}};')
            call.append(v)
        else:
            kind = {'int': 'ARG_INT', 'double': 'ARG_DBL', 'bool': 'ARG_BOOL', 'size_t': 'ARG_INT'}.get(t)
            decl.append(f'const {t} {v} = {kind}({i});' if kind else f'{t} {v}{{}};'); call.append(v)
    out.append(f'case {n}: {{ name = "{name}"; {" ".join(decl)} return mkernel_{name}({", ".join(call)}); }}'); n += 1
open('/verif/harness/names.inc', 'w').write('\n'.join('"' + re.search(r'name = "(\w+)"', o).group(1) + '",' for o in out) + '\n')
open('/verif/harness/calls.inc', 'w').write('\n'.join(out) + f'\n#define NUM_CALLS {n}\n')
print(n)
