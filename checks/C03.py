#!/usr/bin/env python3
"""C03: repeated release (repeatdt)."""
import exec_common as E
from vlib import run_check


def main(c):
    E.models(c, [
        ('repeated release', dict(MaxP=2, Rels='{-999,0,2}', Dts='{-2,1,3}', Spans='{6}', Modes='{"run","end"}',
         Reps='{2,3}', Outs='{0,2}', Cbs='{0}', MaxCalls=1), ['Post', 'Attempt']),
        ('repeated release over calls', dict(MaxP=1, Rels='{0}', Dts='{0,2}', Spans='{0,3,4}', Reps='{2,3}',
         Outcomes='{"ok","del"}', ScriptLens='{0,1}', MaxCalls=2), ['Post', 'Sweep', 'Fin0']),
    ])
    E.conformance(c, [
        (dict(MaxP=3, Rels='{-999,0,1,4}', Dts='{-3,-2,-1,1,2,3,4}', Spans='1..12', Modes='{"run","end"}',
              Reps='{1,2,3,4,5}', Outs='{0,2,3}', Cbs='{0,2,3}', MaxCalls=1), c.n(120, 1200)),
        (dict(MaxP=2, Rels='{-999,0,3}', Dts='{-2,0,1,2,3}', Spans='0..8', Modes='{"run","end"}',
              Reps='{1,2,3,5}', Outs='{0,2}', Cbs='{0,3}', Outcomes='{"ok","del","err","nd"}', ScriptLens='0..3',
              RecModes='{"mut","del"}', MaxCalls=3), c.n(120, 1200)),
    ])


if __name__ == '__main__':
    run_check(main, 'C03')
