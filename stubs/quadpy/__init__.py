"""Minimal offline stand-in for the third-party package ``quadpy``.

Only what hyperstatic's shell elements use: ``quadpy.c2`` (square) and
``quadpy.t2`` (triangle) schemes with an ``integrate(f, points)`` method.  The
integrand receives coordinates of shape (2, npts) and returns values whose last
axis runs over the points; the result is the integral over the domain.
Gauss-Legendre tensor rules (exact far beyond the degree the elements need).
"""
from . import c2, t2  # noqa: F401
