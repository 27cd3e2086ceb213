"""Every component of diamondback behind one interface: recipes, valid calls and invalid calls, chosen at random.

A recipe is (class name, keyword arguments); a call is (method, arguments), where "=name" assigns a setting.  Recipes and
calls are values: they can be copied, and applied to any number of instances.
"""

import copy
import hashlib
import pickle

import numpy

from engine import call


class Call:
    __slots__ = ("method", "args", "kw", "seed")

    def __init__(self, method, *args, **kw):
        self.method, self.args, self.kw, self.seed = method, list(args), kw, 0

    def clone(self):
        c = Call(self.method, *copy.deepcopy(self.args), **copy.deepcopy(self.kw))
        c.seed = self.seed
        return c

    def apply(self, obj):
        """Applies the call, with the arrays it holds themselves."""

        numpy.random.seed(12345)  # the training of mixtures draws from the global generator
        if self.method.startswith("="):
            return call(setattr, obj, self.method[1:], *self.args)
        return call(lambda: getattr(obj, self.method)(*self.args, **self.kw))

    def __repr__(self):
        return f"{self.method}({', '.join(repr(a) for a in self.args)}{', ' + repr(self.kw) if self.kw else ''})"


def real(rng, n, mag=4.0):
    """A random real signal as a caller might present it."""

    style = rng.randrange(6)
    if style == 0:
        return [float(rng.randint(-9, 9)) for _ in range(n)]
    if style == 1:
        return numpy.array([rng.randint(-9, 9) for _ in range(n)])
    if style == 2:
        v = rng.uniform(-mag, mag)
        return numpy.full(n, v)
    return numpy.array([rng.uniform(-mag, mag) for _ in range(n)])


def cplx(rng, n, mag=4.0):
    return numpy.array([complex(rng.uniform(-mag, mag), rng.uniform(-mag, mag)) for _ in range(n)])


def either(rng, n):
    return cplx(rng, n) if rng.random() < 0.3 else real(rng, n)


def size(rng):
    """The length of a signal: short, and now and then past the sizes at which an implementation may change its ways."""

    return rng.choice(LONG) if rng.random() < 0.08 else rng.choice((1, 1, 2, 3, 5, 8, 13))


LONG = (16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 257, 513, 700, 1025)


class Kind:
    streaming = False
    slow = False

    def make(self, recipe):
        import diamondback

        return call(getattr(diamondback, recipe[0]), **recipe[1])

    def op(self, rng, recipe):
        """A valid call whose result depends on the condition of the instance."""

    def control(self, rng, recipe):
        """A valid call which changes the condition of the instance without consuming a signal, or None."""

    def bad(self, rng, recipe):
        """An invalid call."""

    def badnew(self, rng):
        """Invalid constructor arguments."""


class Fir(Kind):
    name, cls, streaming = "fir", "FirFilter", True

    def recipe(self, rng):
        if rng.random() < 0.04:
            return self.cls, dict(style=rng.choice(("Hann", "kaiser", "Blackman", "HAMMING")), frequency=rng.uniform(0.1, 0.9),
                                  order=rng.randint(2, 9) if rng.random() < 0.8 else rng.choice((16, 31, 64, 100)))
        taps = rng.randint(1, 5) if rng.random() < 0.9 else rng.choice((8, 16, 17, 33, 64, 129, 150))
        kw = dict(b=either(rng, taps))
        if rng.random() < 0.4:
            kw["s"] = either(rng, rng.randint(1, taps))
        return self.cls, kw

    def op(self, rng, recipe):
        return Call("filter", either(rng, size(rng)))

    def signal(self, rng, n, recipe):
        return either(rng, n)

    def control(self, rng, recipe):
        r = rng.random()
        if r < 0.7:
            return Call("reset", rng.choice((rng.uniform(-3, 3), rng.randint(-3, 3), complex(1, rng.uniform(-2, 2)))))
        n = len(recipe[1]["b"]) if "b" in recipe[1] else recipe[1]["order"] + 1
        n = max(n, len(recipe[1].get("s", ())))
        return Call("=b", either(rng, n)) if r < 0.85 else Call("=s", either(rng, n))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("reset", [1.0, 2.0]), Call("reset", numpy.ones(2)), Call("reset", None),
                           Call("response", 0), Call("response", -3), Call("delay", 0), Call("response", 8, 0), Call("delay", 8, -1)))

    def badnew(self, rng):
        if rng.random() < 0.15:
            return self.cls, dict(b=rng.choice(([], (), numpy.zeros(0))))
        good = dict(style="Hann", frequency=0.3, order=4, count=1)
        return self.cls, {**good, **rng.choice((dict(style="Boxcar"), dict(style=""), dict(frequency=0.0), dict(frequency=1.0), dict(frequency=-0.2),
                                                dict(frequency=1.5), dict(order=0), dict(order=-1), dict(count=0), dict(count=-2)))}


class Iir(Fir):
    name, cls = "iir", "IirFilter"

    @staticmethod
    def forward(rng, n):
        """Forward coefficients whose first is not zero: with recursive coefficients at random, a steady state exists."""

        b = either(rng, n)
        if b[0] == 0:
            b[0] = 2
        return b

    def recipe(self, rng):
        if rng.random() < 0.04:
            return self.cls, dict(style=rng.choice(("bessel", "Butterworth", "CHEBYSHEV")), frequency=rng.uniform(0.2, 0.8), order=rng.randint(1, 4))
        n = rng.randint(1, 3)
        a = numpy.array([0.0] + [rng.uniform(-0.4, 0.4) for _ in range(n)])
        kw = dict(a=a if rng.random() < 0.5 else list(a), b=self.forward(rng, rng.randint(1, 4)))
        if rng.random() < 0.4:
            kw["s"] = real(rng, max(len(a), len(kw["b"])))
        return self.cls, kw

    def control(self, rng, recipe):
        if "b" in recipe[1]:
            n = max(len(recipe[1]["b"]), len(recipe[1]["a"]))
            r = rng.random()
            if r < 0.2:
                return Call("=b", self.forward(rng, n))
            if r < 0.4:
                return Call("=a", numpy.array([0.0] + [rng.uniform(-0.4, 0.4) for _ in range(n - 1)]))
            if r < 0.5:
                return Call("=s", either(rng, n))
            if abs(sum(recipe[1]["b"][:1]) - 1.0) < 1e-9 or abs(1.0 - sum(recipe[1]["a"])) < 1e-9:
                return Call("=s", real(rng, n))
        return Call("reset", rng.choice((rng.uniform(-3, 3), rng.randint(-3, 3), complex(1, rng.uniform(-2, 2)))))

    def badnew(self, rng):
        if rng.random() < 0.3:
            return self.cls, dict(a=rng.choice(([1.0, 0.5], numpy.array([-0.25, 0.5]), [0.5])), b=[1.0, 1.0])
        good = dict(style="Butterworth", frequency=0.3, order=3, count=1)
        return self.cls, {**good, **rng.choice((dict(style="Cauer"), dict(style=""), dict(frequency=0.0), dict(frequency=1.0), dict(frequency=-0.2),
                                                dict(frequency=1.5), dict(order=0), dict(order=-1), dict(count=0), dict(count=-2)))}


class Derivative(Fir):
    name, cls = "derivative", "DerivativeFilter"
    PAIRS = ((1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (2, 6), (2, 8), (3, 4), (3, 6), (3, 8))

    def recipe(self, rng):
        d, o = rng.choice(self.PAIRS)
        return self.cls, dict(derivative=d, order=o)

    def control(self, rng, recipe):
        return Call("reset", rng.uniform(-3, 3))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(derivative=0, order=1), dict(derivative=4, order=4), dict(derivative=-1, order=1), dict(derivative=1, order=3),
                                     dict(derivative=2, order=1), dict(derivative=3, order=2), dict(derivative=1, order=0)))


class Integral(Fir):
    name, cls = "integral", "IntegralFilter"

    def recipe(self, rng):
        return self.cls, dict(order=rng.randint(0, 4))

    def control(self, rng, recipe):
        return None

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("response", 0), Call("delay", 0), Call("delay", 8, 0)))

    def badnew(self, rng):
        return self.cls, dict(order=rng.choice((5, -1, 9)))


class Pid(Fir):
    name, cls = "pid", "PidFilter"

    def recipe(self, rng):
        return self.cls, dict(b=either(rng, 3))

    def op(self, rng, recipe):
        return Call("filter", either(rng, size(rng)))

    def control(self, rng, recipe):
        r = rng.random()
        if r < 0.5:
            return Call("=limit", rng.choice((0.0, 1.0, rng.uniform(0, 9), 5)))
        return Call("reset", rng.uniform(-3, 3))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("reset", [1.0, 2.0]), Call("=limit", -1.0), Call("=limit", -1e-9)))

    def badnew(self, rng):
        return self.cls, dict(b=rng.choice(([], [1.0], [1.0, 2.0], numpy.ones(4))))


class Rank(Fir):
    name, cls = "rank", "RankFilter"

    def recipe(self, rng):
        o = rng.randint(0, 5)
        return self.cls, dict(index=rng.randint(0, o), order=o)

    def control(self, rng, recipe):
        if rng.random() < 0.5:
            return Call("=index", rng.randint(0, recipe[1]["order"]))
        return Call("reset", rng.uniform(-3, 3))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("reset", [1.0, 2.0]), Call("=index", -1), Call("=index", recipe[1]["order"] + 1)))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(index=-1, order=3), dict(index=4, order=3), dict(index=0, order=-1), dict(index=1, order=0)))


class Goertzel(Kind):
    name, cls, streaming = "goertzel", "GoertzelFilter", True

    def recipe(self, rng):
        b = either(rng, rng.randint(1, 6) if rng.random() < 0.9 else rng.choice((16, 33, 64, 130)))
        b[0] = 1.5 if rng.random() < 0.5 else 2
        return self.cls, dict(b=b, frequency=rng.uniform(-1, 1))

    def op(self, rng, recipe):
        return Call("filter", either(rng, max(size(rng), rng.choice((1, 2, 3, 5, 17)))))

    def signal(self, rng, n, recipe):
        return either(rng, n)

    def control(self, rng, recipe):
        return Call("=frequency", rng.uniform(-1, 1))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("=frequency", 1.01), Call("=frequency", -1.5)))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(b=[], frequency=0.1), dict(b=numpy.zeros(4), frequency=0.1), dict(b=[0.0], frequency=0.1),
                                     dict(b=[1.0, 1.0], frequency=1.01), dict(b=[1.0, 1.0], frequency=-1.01)))


class Polyphase(Kind):
    name, cls, streaming = "polyphase", "PolyphaseRateFilter", True

    def recipe(self, rng):
        return self.cls, dict(rate=rng.choice((rng.uniform(0.1, 4), rng.uniform(0.1, 1), 1.0, 2, 0.5, 1 / 3, 2.5)))

    def op(self, rng, recipe):
        return Call("filter", real(rng, size(rng)))

    def signal(self, rng, n, recipe):
        return real(rng, n)

    def control(self, rng, recipe):
        r = rng.random()
        if r < 0.4:
            return Call("=rate", rng.choice((rng.uniform(0.1, 4), 1.0, 2, 0.5)))
        if r < 0.5:
            return Call("=s", real(rng, 15))
        return Call("reset", rng.uniform(-3, 3))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("=rate", -0.1), Call("=rate", 256.5), Call("reset", [1.0, 2.0]), Call("reset", None)))

    def badnew(self, rng):
        return self.cls, dict(rate=rng.choice((-0.1, 256.5, -7, 1000)))


class ComplexExponential(Kind):
    name, cls, streaming = "exponential", "ComplexExponentialFilter", True

    def recipe(self, rng):
        return self.cls, dict(phase=rng.uniform(-1, 1))

    def op(self, rng, recipe):
        return Call("filter", self.signal(rng, size(rng), recipe))

    def signal(self, rng, n, recipe):
        x = [rng.uniform(-1, 1) for _ in range(n)]
        return x if rng.random() < 0.5 else numpy.array(x)

    def control(self, rng, recipe):
        return Call("=phase", rng.uniform(-1, 1))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("filter", [0.25, 1.01]), Call("filter", [0.5, 0.5, -1.5]),
                           Call("filter", numpy.array([0.1 + 0.2j])), Call("filter", [0.5, 0.1 + 0.2j]), Call("=phase", 1.01), Call("=phase", -1.5)))

    def badnew(self, rng):
        return self.cls, dict(phase=rng.choice((1.01, -1.01, 2.0, -7)))


class ComplexBandpass(Kind):
    name, cls, streaming = "bandpass", "ComplexBandpassFilter", True

    def recipe(self, rng):
        return self.cls, dict(frequency=rng.uniform(-1, 1), rate=rng.uniform(0, 0.5))

    def op(self, rng, recipe):
        return Call("filter", either(rng, size(rng)))

    def signal(self, rng, n, recipe):
        return cplx(rng, n, 1.0)

    def control(self, rng, recipe):
        return rng.choice((Call("=frequency", rng.uniform(-1, 1)), Call("=rate", rng.uniform(0, 0.5))))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(0)), Call("=frequency", 1.01), Call("=frequency", -1.01), Call("=rate", -0.01), Call("=rate", 1.01)))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(frequency=1.01, rate=0.1), dict(frequency=-1.01, rate=0.1), dict(frequency=0.1, rate=-0.01), dict(frequency=0.1, rate=1.01)))


class ComplexFrequency(ComplexBandpass):
    name, cls = "frequency", "ComplexFrequencyFilter"

    def control(self, rng, recipe):
        if rng.random() < 0.4:
            return Call("reset", rng.choice((0.0, complex(rng.uniform(-1, 1), 0.5), 1.0)))
        return super().control(rng, recipe)

    def bad(self, rng, recipe):
        return Call("reset", [1.0, 2.0]) if rng.random() < 0.2 else super().bad(rng, recipe)


class Polynomial(Kind):
    name, cls = "polynomial", "PolynomialRateFilter"

    def recipe(self, rng):
        return self.cls, dict(rate=rng.uniform(0.2, 3), order=rng.randint(1, 3))

    def op(self, rng, recipe):
        return Call("filter", real(rng, 1 + max(size(rng), rng.randint(1, 8))))

    def control(self, rng, recipe):
        return rng.choice((Call("=rate", rng.uniform(0.2, 3)), Call("=order", rng.randint(1, 3))))

    def bad(self, rng, recipe):
        return rng.choice((Call("filter", []), Call("filter", numpy.zeros(1)), Call("filter", numpy.ones((2, 2))), Call("=rate", -0.1), Call("=order", 0), Call("=order", -2)))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(rate=-0.1), dict(rate=1.0, order=0), dict(rate=1.0, order=-1)))


class Window(Kind):
    name, cls = "window", "WindowFilter"

    def recipe(self, rng):
        return self.cls, dict(style=rng.choice(("Hann", "kaiser", "Blackman", "HAMMING")), order=rng.randint(2, 7) if rng.random() < 0.9 else rng.choice((15, 16, 63, 64, 128, 511)), normal=rng.random() < 0.5)

    def op(self, rng, recipe):
        return Call("filter", either(rng, recipe[1]["order"] + 1))

    def bad(self, rng, recipe):
        n = recipe[1]["order"] + 1
        return rng.choice((Call("filter", []), Call("filter", numpy.ones(n + 1)), Call("filter", numpy.ones(n - 1)), Call("filter", numpy.ones((1, n))), Call("filter", numpy.ones((n, 1)))))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(style="Boxcar", order=3), dict(style="", order=3), dict(style="Hann", order=-1)))


class Diversity(Kind):
    name, cls, streaming = "diversity", "DiversityModel", True

    def recipe(self, rng):
        return self.cls, dict(style=rng.choice(("chebyshev", "Euclidean", "GEOMETRIC", "Manhattan")), order=rng.randint(1, 3) if rng.random() < 0.9 else rng.choice((8, 16, 33)))

    def signal(self, rng, n, recipe):
        return numpy.array([[rng.uniform(-4, 4) for _ in range(2)] for _ in range(n)])

    def op(self, rng, recipe):
        x = self.signal(rng, rng.choice((1, 2, 3, 6) if rng.random() < 0.95 else (17, 40)), recipe)
        return Call("fit", x if rng.random() < 0.6 else x.tolist())

    def control(self, rng, recipe):
        return Call("clear")

    def bad(self, rng, recipe):
        return rng.choice((Call("fit", []), Call("fit", [1.0, 2.0]), Call("fit", numpy.ones((0, 2))), Call("fit", numpy.ones((2, 0))), Call("fit", numpy.ones((1, 2, 2)))))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(style="Cosine", order=2), dict(style="", order=2), dict(style="Euclidean", order=-1)))


def dataset(rng, classes=(2, 3), each=(3, 5), d=2):
    x, y = [], []
    for c in range(rng.choice(classes)):
        m = [rng.uniform(-6, 6) for _ in range(d)]
        for _ in range(rng.randint(*each)):
            x.append([v + rng.uniform(-1, 1) for v in m])
            y.append(c * 3 - 2)
    k = list(range(len(x)))
    rng.shuffle(k)
    return numpy.array([x[i] for i in k]), numpy.array([y[i] for i in k])


class Gaussian(Kind):
    name, cls = "gaussian", "GaussianModel"

    def recipe(self, rng):
        return self.cls, dict(regularize=rng.uniform(0.05, 1.0))

    def first(self, rng, recipe):
        return Call("fit", *dataset(rng))

    def op(self, rng, recipe):
        return Call("predict", numpy.array([[rng.uniform(-8, 8) for _ in range(2)] for _ in range(rng.randint(1, 6) if rng.random() < 0.95 else rng.choice((33, 64, 65, 129, 300)))]))

    def control(self, rng, recipe):
        if rng.random() < 0.3:
            return Call("=regularize", rng.uniform(0.05, 1.0))
        return self.first(rng, recipe)

    def bad(self, rng, recipe):
        x, y = dataset(rng)
        return rng.choice((Call("fit", x, y[:-1]), Call("fit", x[:-1], y), Call("fit", x, y.astype(float)), Call("fit", x[:, 0], y), Call("fit", x[:0], y[:0]),
                           Call("fit", x[:, :0], y), Call("predict", numpy.ones((2, 3))), Call("predict", numpy.ones((2, 1))), Call("predict", numpy.ones(2)),
                           Call("predict", numpy.ones((0, 2))), Call("=regularize", -0.1)))

    def badnew(self, rng):
        return self.cls, dict(regularize=-0.1)


class Mixture(Gaussian):
    name, cls, slow = "mixture", "GaussianMixtureModel", True

    def recipe(self, rng):
        return self.cls, dict(order=rng.randint(1, 2), index=20, regularize=rng.uniform(0.05, 1.0))

    def bad(self, rng, recipe):
        if rng.random() < 0.3:
            x = numpy.array([[0.0, 1.0], [5.0, 5.0]])
            return rng.choice((Call("=index", 0), Call("=index", -3), Call("fit", x, numpy.array([0, 1]))))
        return super().bad(rng, recipe)

    def badnew(self, rng):
        return self.cls, rng.choice((dict(order=0), dict(order=-1), dict(index=0), dict(regularize=-0.1)))


class Wavelet(Kind):
    name, cls = "wavelet", "WaveletTransform"
    PAIRS = (("Haar", 1), ("Daubechies", 3), ("daubechies", 5), ("Coiflet", 5), ("SYMMLET", 7))

    def recipe(self, rng):
        s, o = rng.choice(self.PAIRS)
        return self.cls, dict(style=s, order=o)

    def op(self, rng, recipe):
        n = rng.choice((4, 8) if rng.random() < 0.93 else (16, 32, 64, 128, 256, 1024))
        if rng.random() < 0.5:
            return Call("transform", either(rng, n), rng.randint(1, 2), rng.random() < 0.5)
        x = numpy.array([list(real(rng, n)) for _ in range(rng.choice((1, 4) if n < 64 else (4, 16)))])
        return Call("transform", x if rng.random() < 0.6 else x.tolist(), rng.randint(1, 2), rng.random() < 0.5)

    def bad(self, rng, recipe):
        return rng.choice((Call("transform", [], 1), Call("transform", numpy.ones(4), 0), Call("transform", numpy.ones(4), -1), Call("transform", numpy.ones(6), 2),
                           Call("transform", numpy.ones((3, 4)), 1), Call("transform", numpy.ones((2, 2, 2)), 1), Call("transform", numpy.ones(3), 1, True)))

    def badnew(self, rng):
        return self.cls, rng.choice((dict(style="Morlet", order=1), dict(style="", order=1), dict(style="Haar", order=2), dict(style="Daubechies", order=1), dict(style="Coiflet", order=0)))


class Static(Kind):
    def make(self, recipe):
        import diamondback

        return call(lambda: getattr(diamondback, recipe[0]))

    def recipe(self, rng):
        return self.cls, {}

    def badnew(self, rng):
        return None


class Fourier(Static):
    name, cls = "fourier", "FourierTransform"

    def op(self, rng, recipe):
        n = 1 + max(size(rng), rng.randint(1, 8))
        b = real(rng, n)
        b[0] = b[-1] = 2
        return Call("transform", either(rng, n + rng.randint(0, 2)), b, rng.random() < 0.4)

    def bad(self, rng, recipe):
        return rng.choice((Call("transform", [], [1.0]), Call("transform", numpy.ones(3), numpy.ones(4)), Call("transform", numpy.ones(3), numpy.zeros(3)),
                           Call("transform", numpy.ones(3), []), Call("transform", numpy.ones(3), numpy.zeros(3), True)))


class Psd(Static):
    name, cls = "psd", "PsdTransform"

    def op(self, rng, recipe):
        n = max(size(rng), rng.randint(1, 6))
        b = either(rng, n)
        b[0] = 2
        return Call("transform", either(rng, n + rng.choice((rng.randint(0, 9), rng.randint(0, 9), 2 * n, 5 * n + 1))), b, rng.randint(1, 4), rng.random() < 0.5)

    def bad(self, rng, recipe):
        return rng.choice((Call("transform", [], [1.0], 1), Call("transform", numpy.ones(3), [], 1), Call("transform", numpy.ones(3), numpy.zeros(3), 1),
                           Call("transform", numpy.ones(3), numpy.ones(4), 1)))


class ZDomain(Static):
    name, cls = "z", "ZTransform"

    def op(self, rng, recipe):
        u = [rng.choice((1.0, 2.0)), rng.choice((3.0, 4.0)), rng.choice((1.0, 1.5))]
        if rng.random() < 0.3:
            u = [0.0] + u
        v = [1.0] if rng.random() < 0.5 else [0.0, 0.0, rng.uniform(0.5, 2)]
        if rng.random() < 0.5:
            u, v = numpy.array(u), numpy.array(v)
        return Call("transform", u, v, rng.uniform(0.05, 0.5), rng.random() < 0.5)

    def bad(self, rng, recipe):
        return rng.choice((Call("transform", [], [1.0], 0.1), Call("transform", [1.0, 1.0], [], 0.1), Call("transform", [0.0, 0.0], [1.0], 0.1),
                           Call("transform", [1.0, 1.0], numpy.zeros(2), 0.1), Call("transform", [1.0, 1.0], [1.0], 0.0), Call("transform", [1.0, 1.0], [1.0], -0.1)))


class Phases(Static):
    name, cls = "phases", "ComplexTransform"

    def op(self, rng, recipe):
        n = rng.randint(1, 5) if rng.random() < 0.92 else rng.choice(LONG)
        if rng.random() < 0.5:
            return Call("transform", cplx(rng, n), rng.random() < 0.5)
        x = numpy.array([list(real(rng, n)) for _ in range(3)])
        return Call("transform", x if rng.random() < 0.6 else x.tolist(), rng.random() < 0.5)

    def bad(self, rng, recipe):
        return rng.choice((Call("transform", []), Call("transform", numpy.ones((2, 4))), Call("transform", numpy.ones((3, 0))), Call("transform", numpy.ones((3, 3, 3))), Call("transform", numpy.ones((4, 2)))))


KINDS = [k() for k in (Fir, Iir, Derivative, Integral, Pid, Rank, Goertzel, Polyphase, ComplexExponential, ComplexBandpass, ComplexFrequency,
                       Polynomial, Window, Diversity, Gaussian, Mixture, Wavelet, Fourier, Psd, ZDomain, Phases)]


def digest(value):
    """A text that identifies an observed result by shape and value."""

    if isinstance(value, (tuple, list)) and not all(isinstance(v, (int, float, complex)) for v in value):
        return "(" + ",".join(digest(v) for v in value) + ")"
    if value is None:
        return "none"
    try:
        a = numpy.asarray(value)
        if a.dtype.kind in "biuf":
            a = a.astype(float)
        elif a.dtype.kind == "c":
            a = a.astype(complex)
        else:
            return repr(value)
        a = a + 0.0  # minus zero is zero
        return f"{a.shape}{a.dtype.kind}" + hashlib.sha1(numpy.ascontiguousarray(a).tobytes()).hexdigest()
    except Exception:
        return repr(value)


class Ids:
    """Names observed results by numbers: equal results have equal numbers."""

    def __init__(self):
        self.table = {}

    def of(self, observed):
        key = "error" if observed.error else digest(observed.value)
        return self.table.setdefault(key, len(self.table) + 1)


def snapshot(args):
    """The bits of the arguments of a call, and how they are laid out."""

    return pickle.dumps([_flat(a) for a in args])


def _flat(a):
    if isinstance(a, numpy.ndarray):
        return ("array", a.shape, a.dtype.str, a.tobytes())
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [_flat(v) for v in a])
    if isinstance(a, dict):
        return ("dict", [(k, _flat(v)) for k, v in a.items()])
    return repr(a)


def scribble(value, rng):
    """Overwrites every array and list reachable from a value, as a caller may do with what it owns."""

    if isinstance(value, numpy.ndarray):
        if value.flags.writeable and value.size:
            value[...] = rng.choice((0, 1, 7))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            if isinstance(v, (list, tuple, numpy.ndarray)):
                scribble(v, rng)
            else:
                value[i] = 7
        if rng.random() < 0.3:
            value.clear()
    elif isinstance(value, (tuple, dict)):
        for v in value.values() if isinstance(value, dict) else value:
            scribble(v, rng)
