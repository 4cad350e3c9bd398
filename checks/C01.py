#!/usr/bin/env python3
"""C01: time stepping of ParticleSet.execute."""
import exec_common as E
from vlib import run_check

ALLDT = '{-4,-3,-2,-1,1,2,3,4,8}'


def main(c):
    E.models(c, [
        ('delayed release, forward and backward, callbacks', dict(MaxP=2, Rels='{-999,0,3}', Dts='{-3,2}',
         Spans='{4,5}', Modes='{"run","end","def"}', Outs='{0,3}', Cbs='{0,2}', MaxCalls=1),
         ['StartCall', 'Loop', 'Attempt', 'SkipParticle', 'Post', 'EndCall']),
        ('consecutive calls', dict(MaxP=1 if not c.thorough else 2, Rels='{0,3}', Dts='{-2,0,2}', Spans='{0,3}',
         Modes='{"run","end"}', Cbs='{0,2}', MaxCalls=2), ['Fin0', 'Attempt', 'Post']),
        ('step size changes', dict(MaxP=1, Rels='{0}', Dts='{-4,4}', Spans='{6}', Cbs='{0,3}',
         Outcomes='{"ok","rep","hlv","nd"}', ScriptLens=c.n('{0,2}', '{0,2,3}'), MaxCalls=1), ['Recover', 'Attempt']),
    ])
    E.conformance(c, [
        (dict(MaxP=3, Rels='{-999,0,1,3,4,7,12}', Dts=ALLDT, Spans='0..12', Modes='{"run","end","def"}',
              Outs='{0,2,3,5}', Cbs='{0,1,2,3,4,7}', MaxCalls=1), c.n(150, 1500)),
        (dict(MaxP=2, Rels='{-999,0,2,5}', Dts='{-4,-3,-1,0,1,2,3,4}', Spans='0..8', Modes='{"run","end","def"}',
              Outs='{0,3}', Cbs='{0,1,2,3,5}', MaxCalls=3), c.n(120, 1200)),
        (dict(MaxP=2, Rels='{0,1,4}', Dts='{-8,-4,4,8}', Spans='3..13', Modes='{"run","end"}', Cbs='{0,3,5}',
              Outcomes='{"ok","rep","hlv","nd"}', ScriptLens='0..5', MaxCalls=2), c.n(100, 1000)),
    ])


if __name__ == '__main__':
    run_check(main, 'C01')
