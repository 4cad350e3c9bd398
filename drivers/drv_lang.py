"""Replays programs of KernelLang.tla: renders them as kernel functions and executes them for several particles and time steps."""
import importlib.util
import os

import numpy as np

from parcels import FieldSet, JITParticle, ParticleSet, ScipyParticle, SummedField, Variable

from drvlib import tmpdir

ONE = 64
PV, QV, UV, VV = [3, -2, 5, 8, 1], [1, 4, -1, 2, 0], [2, 0, -3, 1, 4], [-1, 5, 2, 0, 3]
KONST = 96 / ONE
NUM = dict(c0='0', c1='1', c2='2', c3='3', c4='4', chalf='0.5', cm='1.5', K1='1', K2='2', K3='3', p0='0', p2='2', p3='3')
SUB = dict(a='particle.a', b='particle.b', i='particle.i', x='particle.x', u='u', v='v', w='w', kon='fieldset.kon', time='time', dt='particle.dt')
COUNT = [0]


class Renderer:
    """Python source of a program, one function per kernel.  `form` picks one of several equivalent ways of writing."""

    def __init__(self, prog, form=0):
        self.p, self.k, self.form = prog, 0, form

    def next(self):
        t = self.p[self.k]
        self.k += 1
        return t

    def sample(self, name):
        loc = self.expr()
        if self.form % 3 == 1 and name in ('P', 'UV'):
            return 'fieldset.%s.eval(time, 0, 0, %s)' % (name, loc) if name == 'P' else 'fieldset.UV[time, particle.depth, particle.lat, %s]' % loc
        if self.form % 3 == 2:
            return 'fieldset.%s[time, 0, 0, %s, particle]' % (name, loc)
        return 'fieldset.%s[time, particle.depth, particle.lat, %s]' % (name, loc)

    def expr(self):
        t = self.next()
        if t in NUM:
            return NUM[t]
        if t in SUB:
            return SUB[t]
        if t in ('P', 'S'):
            return self.sample(t)
        if t == 'neg':
            return '(-%s)' % self.expr()
        if t == 'not':
            return '(not %s)' % self.expr()
        if t in ('fabs', 'floor'):
            return 'math.%s(%s)' % (t, self.expr())
        x = self.expr()
        y = self.expr()
        if t in ('min', 'max'):
            return '%s(%s, %s)' % (t, x, y)
        return '(%s %s %s)' % (x, t, y)

    def var(self):
        return SUB[self.next()]

    def block(self, ind):
        out = []
        while self.next() == ';':
            out += self.stmt(ind)
        return out or [' ' * ind + 'pass']

    def stmt(self, ind):
        t = self.next()
        s = ' ' * ind
        if t in ('pass', 'break', 'cut'):
            return [s + t]
        if t in ('=', '=c'):
            return [s + '%s = %s' % (self.var(), self.expr())]
        if t in ('+=', '-=', '*='):
            return [s + '%s %s %s' % (self.var(), t, self.expr())]
        if t == 'tup':
            a, b, x, y = self.var(), self.var(), self.expr(), self.expr()
            return [s + '%s, %s = %s, %s' % (a, b, x, y) if self.form % 2 else s + '(%s, %s) = (%s, %s)' % (a, b, x, y)]
        if t == 'multi':
            return [s + '%s = %s = %s' % (self.var(), self.var(), self.expr())]
        if t == 'uv':
            a, b = self.var(), self.var()
            return [s + '(%s, %s) = %s' % (a, b, self.sample('UV'))]
        if t == 'if':
            c = self.expr()
            body = self.block(ind + 4)
            el = self.p[self.k] == 'end'
            orelse = self.block(ind + 4)
            if len(orelse) and orelse[0].strip().startswith('if ') and self._single(orelse, ind + 4):
                orelse = [x[4:] for x in orelse]
                orelse[0] = s + 'el' + orelse[0].strip()
                return [s + 'if %s:' % c] + body + orelse
            return [s + 'if %s:' % c] + body + ([] if el else [s + 'else:'] + orelse)
        if t in ('loop', 'loopc'):
            k = NUM[self.next()]
            c = self.expr() if t == 'loopc' else None
            body = self.block(ind + 4)
            test = 'w < %s' % k if c is None else '(w < %s) and %s' % (k, c)
            return [s + 'w = 0', s + 'while %s:' % test, s + '    w += 1'] + body
        raise ValueError(t)

    @staticmethod
    def _single(lines, ind):
        """The lines are one if statement (with its elif and else)"""
        return all(x.startswith(' ' * (ind + 1)) or x.strip().startswith(('elif ', 'else:')) for x in lines[1:])

    def functions(self, base):
        kernels, cur = [], []
        for line in self.block(4):
            if line == '    cut':
                kernels.append(cur)
                cur = []
            else:
                cur.append(line)
        kernels.append(cur)
        out = []
        for n, b in enumerate(kernels):
            out.append('def %s%d(particle, fieldset, time):' % (base, n))
            if self.form % 4 == 3:
                out.append('    """Docstring of kernel %d"""' % n)
            out += b + ['']
        return len(kernels), '\n'.join(['import math', ''] + out) + '\n'


def fields():
    nx = len(PV)
    dim = dict(lon=np.arange(nx, dtype=np.float32), lat=np.array([0, 1], dtype=np.float32))

    def d(v):
        return np.array([v, v], dtype=np.float32)
    fs = FieldSet.from_data(dict(U=d(UV), V=d(VV), P=d(PV)), dim, mesh='flat')
    f2 = FieldSet.from_data(dict(U=d(UV), V=d(VV), Q=d(QV)), dim, mesh='flat')
    fs.add_field(SummedField('S', [fs.P, f2.Q]))
    fs.add_constant('kon', KONST)
    return fs


def kernel(pset, fs, fn, how):
    """Combines the kernel functions in one of the ways the interface offers"""
    if len(fn) == 1:
        return [fn[0], pset.Kernel(fn[0])][how % 2]
    if how % 5 == 4:  # one Kernel object per function, also when it occurs more than once
        obj = {f: pset.Kernel(f) for f in fn}
        k = obj[fn[0]]
        for f in fn[1:]:
            k = k + obj[f]
        return k
    if how % 5 == 0:
        k = pset.Kernel(fn[0])
        for f in fn[1:]:
            k = k + pset.Kernel(f)
        return k
    if how % 5 == 1:
        k = pset.Kernel(fn[0])
        for f in fn[1:]:
            k = k + f
        return k
    if how % 5 == 2:
        k = pset.Kernel(fn[-1])
        for f in reversed(fn[:-1]):
            k = f + k
        return k
    k = pset.Kernel(fn[1])
    for f in fn[2:]:
        k = k + pset.Kernel(f)
    return pset.Kernel(fn[0]) + k


def run(s):
    COUNT[0] += 1
    n, src = Renderer(s['prog'], s['form']).functions('Kern')
    d = tmpdir()
    path = os.path.join(d, 'prog%d.py' % COUNT[0])
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location('prog%d' % COUNT[0], path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    fn = [getattr(mod, 'Kern%d' % k) for k in range(n)] * s['rep']
    base = JITParticle if s['mode'] == 'jit' else ScipyParticle

    class LangParticle(base):
        a = Variable('a', dtype=np.float32, initial=0)
        b = Variable('b', dtype=np.float64, initial=0)
        i = Variable('i', dtype=np.int32, initial=0)
        x = Variable('x', dtype=np.float32, initial=0)

    fs = fields()
    ini = s['log'][0]
    pset = ParticleSet(fs, pclass=LangParticle, lon=[0.5] * len(ini), lat=[0.5] * len(ini),
                       lonlatdepth_dtype=np.float64 if s['form'] % 2 else np.float32,
                       a=[v[0] / ONE for v in ini], b=[v[1] / ONE for v in ini], i=[v[2] // ONE for v in ini], x=[v[3] / ONE for v in ini])
    steps = []
    k = kernel(pset, fs, fn, s['how'])
    if s['form'] % 2:
        pset.execute(k, runtime=len(s['log']) - 1, dt=1)
        steps = [None] * (len(s['log']) - 2)
        steps.append([[float(p.a) * ONE, float(p.b) * ONE, float(p.i) * ONE] for p in pset])
    else:
        for _ in s['log'][1:]:
            pset.execute(k, runtime=1, dt=1)
            steps.append([[float(p.a) * ONE, float(p.b) * ONE, float(p.i) * ONE] for p in pset])
    return dict(src=src, steps=steps)
