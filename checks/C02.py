#!/usr/bin/env python3
"""C02: errors, recovery kernels, deletion."""
import exec_common as E
from vlib import run_check


def main(c):
    E.models(c, [
        ('every error and recovery', dict(MaxP=1, Rels='{0}', Dts='{2}', Spans='{4}',
         Outcomes='{"ok","err","oob","surf","text","del"}', ScriptLens=c.n('{2}', '{3}'),
         RecModes='{"skip","mut","del","raise"}', MaxCalls=1), ['Recover', 'EndRecover', 'Sweep']),
        ('two particles, errors interleaved with repeats', dict(MaxP=2, Rels='{0,1}', Dts='{-4,4}', Spans='{5}',
         Outcomes='{"err","rep","del"}', ScriptLens='{0,2}', RecModes='{"mut","del"}', Cbs='{0,3}', MaxCalls=1),
         ['Recover', 'EndRecover', 'Sweep', 'Attempt']),
    ])
    E.conformance(c, [
        (dict(MaxP=3, Rels='{0,1,3}', Dts='{-4,-2,1,2,4}', Spans='2..9', Modes='{"run","end"}', Cbs='{0,2,3}',
              Outcomes='{"ok","err","oob","surf","text","del","rep","hlv","nd"}', ScriptLens='0..6',
              RecModes='{"skip","mut","del"}', MaxCalls=2), c.n(170, 1800)),
        (dict(MaxP=2, Rels='{0,2}', Dts='{-4,0,2,4}', Spans='0..6', Cbs='{0,2}', Outs='{0,2}',
              Outcomes='{"ok","err","oob","surf","text","del"}', ScriptLens='1..4',
              RecModes='{"skip","mut","del","raise"}', MaxCalls=2), c.n(120, 1200)),
        # mostly errors: chains of recoveries, deletions by recovery kernels, several particles at once
        (dict(MaxP=3, Rels='{0}', Dts='{2,-2,0}', Spans='{4,6}', Outcomes='{"err","oob","text","del"}',
              ScriptLens='1..5', RecModes='{"skip","mut","mut","del"}', MaxCalls=2), c.n(60, 700)),
    ])


if __name__ == '__main__':
    run_check(main, 'C02')
