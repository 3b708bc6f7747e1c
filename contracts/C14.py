"""The Markov parameters of the GPNH CROM: objective, exact gradients, weights untouched."""
from contracts import crom
from contracts.convex import *
from contracts.gradient import gradient_steps


def verify(S):
    for nm, one in crom.CASES:
        b = lambda S, one=one: crom.model(S, one)
        S.warm(b)
        S.section('residual (%s)' % nm, cost_method, b)
        S.section('updates (%s)' % nm, updates_cost, b)
        S.section('line search (%s)' % nm, line_search_costs, b, None, one)
        S.section('gradient steps (%s)' % nm, gradient_steps, b)
        S.section('_fit_parameters (%s)' % nm, crom.fit_parameters, b, lambda *a: None)
