#!/usr/bin/env python3
"""Record the functions of the analysed tree; functions that appear later (extracted helpers) are analysed inline."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.load import Program
p = Program("/repo", normalise=False)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "known_functions.txt"), "w") as f:
    for q in sorted(p.funcs):
        if "<lambda>" not in q: f.write(q + "\n")

import json
from sa.canon import shapes
loc, comps, loops = {}, set(), set()
for m in p.modules.values():
    a, b, c = shapes(m.tree, m.name)
    loc.update({k: sorted(v) for k, v in a.items()}); comps |= b; loops |= c
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "known_shapes.json"), "w") as f:
    f.write('{"locals": {\n%s\n},\n"comps": %s,\n"loops": %s}\n' % (",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(loc.items())), json.dumps(sorted(comps)), json.dumps(sorted(loops))))
