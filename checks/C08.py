#!/usr/bin/env python3
"""C08: interpolation in time, periodic and extrapolated series."""
import time_common as T
from vlib import run_check


def main(c):
    T.models(c, [('interpolation, periodic, extrapolation', dict(Axes='{<<0,4>>,<<2,4,10>>}', Pers='{0,1,3}', Exts='{TRUE,FALSE}',
                  Rels='{-4,2,6}', Dts='{-4,2,6}', Spans=c.n('{6}', '{6,14}'), MaxP=2 if c.thorough else 1), ['Step', 'Reach', 'EndCall'])])
    w = dict(T.WIDE, Pers='{0,1,3,5}', Exts='{TRUE,FALSE}', Defers='{FALSE}')
    T.conformance(c, [
        (dict(w), c.n(80, 800), lambda i: dict(fullnc=i % 2 == 0, split=[1, 2, 10][i % 3])),
        (dict(w, NF=2), c.n(80, 800), lambda i: dict(fullnc=i % 3 == 0, split=[1, 2, 10][i % 3])),
        (dict(w, NF=2, Axes='{<<0,4,8>>,<<0,4>>}', Pers='{0,1,5}'), c.n(40, 400), lambda i: dict(fullnc=i % 3 == 0, split=10)),
    ])


if __name__ == '__main__':
    run_check(main, 'C08')
