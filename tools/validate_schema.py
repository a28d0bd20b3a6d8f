"""Checks the generator itself: for many seeds, the document of a value loads as that value and dumps back."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import node, core, canon as C
node.install()
from sim.chooser import Chooser
from sim.work import Work, deep, draw_cfg

n, hooks = int(sys.argv[1]), int(sys.argv[2])
bad = 0
for i in range(n):
    ch = Chooser(i * 7919 + hooks)
    env = core.Env(i, ch)
    core.fresh_process_state(0)
    cfg = draw_cfg(ch, extra=False)
    cfg.namespaces = True
    w = Work(env, cfg, hooks=bool(hooks))
    nd = w.node()
    nd.activate()
    l = w.loader(nd)
    d = w.dumper(nd)
    for k in range(6):
        o = w.good_op(k)
        doc = o.doc
        if cfg.json:
            doc = o.doc = json.loads(json.dumps(doc))
        v = w.value(nd, o)
        r = w.do_load(nd, l, o)
        if core.outcome_of(r) != ('ok', C.canon(v)) or not w.roots[o.root].conforms(v, nd.schema):
            bad += 1
            print(i, w.cfg, '\n', w.s.src().split('from uuid import UUID')[1], o, core.show(core.outcome_of(r), 1500), '\n wanted', C.brief(v, 1500))
            break
        x = core.call(d.dump, v)
        if x[0] == 'exc':
            if 'tzdata' in str(x[1]) or 'unhashable' in str(x[1]):
                continue
            bad += 1
            print(i, 'dump', x, w.s.src(), v)
            break
        if cfg.json:
            o.doc = json.loads(json.dumps(x[1]))
            r = w.do_load(nd, l, o)
            if core.outcome_of(r) != ('ok', C.canon(v)):
                bad += 1
                print(i, 'round trip', w.cfg, w.s.src().split('from uuid import UUID')[1], o, x[1], core.show(core.outcome_of(r), 1500), v)
                break
    if bad > 3:
        break
print(n, 'schemas', bad, 'bad')
