#!/usr/bin/env python3
"""C04: content of the output file."""
import exec_common as E
from vlib import run_check


def main(c):
    E.models(c, [
        ('output schedule', dict(MaxP=2, Rels='{0,3}', Dts='{-2,2,3}', Spans='{4,5}', Modes='{"run","end"}',
         Outs='{1,2,3}', OnDel='{FALSE,TRUE}', MaxCalls=1), ['Post', 'EndCall']),
        ('deletion and output', dict(MaxP=2, Rels='{0,1}', Dts='{2}', Spans='{4}', Outs='{2,3}', OnDel='{FALSE,TRUE}',
         Outcomes='{"ok","del","err"}', ScriptLens='{1,2}', RecModes='{"del"}', MaxCalls=1), ['Sweep', 'EndRecover']),
        ('several calls to one file', dict(MaxP=1, Rels='{0}', Dts='{-2,0,2}', Spans='{0,3}', Modes='{"run","end"}',
         Outs='{2}', MaxCalls=c.n(2, 3)), ['Post', 'Fin0']),
    ])
    E.conformance(c, [
        (dict(MaxP=3, Rels='{-999,0,1,3,4,7}', Dts='{-4,-3,-2,-1,1,2,3,4}', Spans='0..12', Modes='{"run","end","def"}',
              Outs='{1,2,3,4,5}', OnDel='{FALSE,TRUE}', Cbs='{0,2,3}', MaxCalls=1), c.n(130, 1300)),
        (dict(MaxP=3, Rels='{0,1,2,4}', Dts='{-2,-1,0,1,2,3,4}', Spans='0..8', Modes='{"run","end"}',
              Outs='{1,2,3,5}', OnDel='{FALSE,FALSE,TRUE}', Reps='{0,0,2,3}',
              Outcomes='{"ok","del","err","rep","nd"}', ScriptLens='0..5', RecModes='{"skip","mut","del"}',
              MaxCalls=2), c.n(130, 1300)),
        (dict(MaxP=2, Rels='{0,3}', Dts='{-2,0,1,2}', Spans='0..6', Modes='{"run","end"}', Outs='{1,2,3}',
              Outcomes='{"ok","del"}', ScriptLens='0..6', MaxCalls=4), c.n(80, 800)),
    ])


if __name__ == '__main__':
    run_check(main, 'C04')
