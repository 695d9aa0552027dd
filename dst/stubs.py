"""Cheap stand-ins for expensive pure numerics, so that a session of the SOEC
command costs milliseconds.  They change which numbers come out of the scipy
optimisers, not what the package does with them."""


def coarse_optimisers(level=1):
    import numpy as np
    from scipy import optimize
    if getattr(optimize, '_dst_coarse', None):
        return
    real = optimize.brute

    def brute(func, ranges, args=(), Ns=20, full_output=0, finish=None, disp=False, workers=1):
        return real(func, ranges, args, Ns=3 if level else 5, full_output=full_output, finish=None)

    def minimize(fun, x0, args=(), method=None, **kw):
        best, at = None, None
        for z in ((0.4, 2.0) if level else np.linspace(0, np.pi, 7)):
            x = np.atleast_1d(np.asarray(x0, dtype=float)) * 0 + z
            v = np.ravel(fun(x, *args))[0]
            if best is None or v < best:
                best, at = v, x
        return optimize.OptimizeResult(x=at, fun=best, success=True, nit=1, message='stub')
    def fmin(func, x0, args=(), full_output=0, **kw):
        x = np.array(x0, dtype=float)
        v = np.ravel(func(x, *args))[0]
        return (x, v, 1, 1, 0) if full_output else x
    optimize._dst_coarse = (real, optimize.minimize, optimize.fmin)
    optimize.fmin = fmin
    optimize.brute = brute
    optimize.minimize = minimize


def coarse_angles(n=9):
    """The plane sections of the SOEC calculator have n directions, not 360."""
    import functools
    from quantas.soec.soec import SOECCalculator as C
    real = C.calculate_polar_properties
    if getattr(real, '_dst', None):
        return

    @functools.wraps(real)
    def calculate(self, nrad=n):
        return real(self, min(nrad, n))
    calculate._dst = True
    C.calculate_polar_properties = calculate
