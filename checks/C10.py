#!/usr/bin/env python3
"""C10: chunked loading is invisible."""
import time_common as T
from vlib import run_check


def main(c):
    T.models(c, [('particles moving over the grid', dict(Axes='{<<0,4,6>>}', Pers='{0,3}', Exts='{TRUE}', Defers='{TRUE,FALSE}',
                  Rels='{0,2}', Dts='{-2,4}', Spans='{6}', MaxP=2, Cols='{0,5,16}', Moves='{-3,5}', Rows='{0,3}', MovesY='{0,1}'),
                  ['Step', 'Reach', 'EndCall'])])
    w = dict(T.WIDE, Pers='{0,1,3,5}', Exts='{TRUE,FALSE}', Defers='{TRUE}')
    T.conformance(c, [
        (dict(w), c.n(70, 700), lambda i: dict(chunks=T.CHUNKS[i % len(T.CHUNKS)], split=[1, 2, 10][i % 3])),
        (dict(w, NF=2, Defers='{TRUE,FALSE}'), c.n(70, 700),
         lambda i: dict(chunks=T.CHUNKS[i % len(T.CHUNKS)], fullnc=i % 3 != 0, split=[1, 2, 10][i % 3])),
        (dict(w, NF=2, Axes='{<<0,4,8>>,<<0,4,8,12>>}', Pers='{0,1}', Exts='{TRUE}', Spans='{10,20}'), c.n(40, 400),
         lambda i: dict(chunks=T.CHUNKS[i % len(T.CHUNKS)], split=[2, 10, 1][i % 3])),
        (dict(w, NF=2, Axes='{<<0,4,8>>}', Pers='{0}', Exts='{TRUE}', Spans='{2,6}', Uses='{0,1,2}'), c.n(40, 400),
         lambda i: dict(chunks=T.CHUNKS[i % 2 + 1:i % 2 + 2][0], split=[2, 10, 1][i % 3])),
    ])


if __name__ == '__main__':
    run_check(main, 'C10')
