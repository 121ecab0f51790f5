"""C04: control flow follows the C abstract machine (checkpoint traces vs reference builds)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff
from vlib.flow import flow_program


def check(ctx):
    ctx.rule = ('random nests of if/loops/switch (ranges, all controlling types, boundary labels)/goto/computed goto/labelled break/statement expressions/conditional operators, '
                'each function run with 8 condition streams; non-trivial: distinct checkpoint traces')
    slim = ctx.build('plain')
    D = Diff(ctx, slim, common=('-w', '-DSLIM', '-std=c23'), ref_common=('-w', '-fno-common'))

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src = flow_program(r, 14, maxdepth=r.choice((3, 4, 6)), budget=r.choice((25, 45, 70)))
        vs = [[[]], [['-O0']], [['-O1', '-fPIC', '-fstack-reuse=none']], [['-fno-pie', '-no-pie']]][idx % 4]
        w = D.go(res, 'flow', {'t.c': src}, vs)
        if w:
            res.distinct = {h(x.split(' ', 1)[-1]) for x in w}
            res.events = sum(x.count(' ') for x in w)
            if idx == 0: res.sample = {'trace': w[3][:300]}
        return res
    ctx.pmap(one, range(ctx.n(900, 8000)))


if __name__ == '__main__':
    main('C04', check, min_events=10000, min_distinct=2000)
