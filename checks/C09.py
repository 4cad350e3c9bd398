#!/usr/bin/env python3
"""C09: deferred loading of time slices is invisible."""
import time_common as T
from vlib import run_check


def main(c):
    T.models(c, [('window of loaded slices', dict(Axes='{<<0,4,6>>,<<2,4,10,12>>}', Pers='{0,1,3}', Exts='{TRUE,FALSE}', Defers='{TRUE}',
                  Rels='{-4,2,6}', Dts='{-4,2,6}', Spans='{6,14}', MaxP=2 if c.thorough else 1), ['Step', 'Reach', 'EndCall']),
                 ('two fields, consecutive calls', dict(Axes='{<<0,4,6>>,<<2,6,10>>}', Pers='{0,3}', Exts='{TRUE,FALSE}', Defers='{TRUE}', NF=2,
                  Rels='{2}', Dts='{-4,4}', Spans='{6}', MaxCalls=2), ['Step', 'Reach', 'EndCall'])])
    w = dict(T.WIDE, Pers='{0,1,3,5}', Exts='{TRUE,FALSE}', Defers='{TRUE}')
    T.conformance(c, [
        (dict(w), c.n(80, 800), lambda i: dict(split=[1, 2, 10][i % 3])),
        (dict(w, NF=2, Defers='{TRUE,FALSE}'), c.n(80, 800), lambda i: dict(fullnc=i % 2 == 0, split=[1, 2, 10][i % 3])),
        (dict(w, NF=2, Axes='{<<0,4,8>>,<<0,4,8,12>>}', Pers='{0,1,5}'), c.n(40, 400), lambda i: dict(split=[2, 10, 1][i % 3])),
        (dict(w, NF=2, Axes='{<<0,4,8,12>>,<<2,4,8,10,16>>,<<-4,2,4,14>>}', Pers='{0}', Exts='{FALSE}', Rels='{2,4,8,10,12}', Spans='{2,4,8}', Dts='{-4,-2,2,4}', MaxCalls=4, MaxP=2, Moves='{0,1}'),
         c.n(50, 500), lambda i: dict(split=[2, 10, 1][i % 3])),
    ])


if __name__ == '__main__':
    run_check(main, 'C09')
