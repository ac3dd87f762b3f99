"""solvers and precisions agree"""
from props import m08


def run(ctx):
    m08.run(ctx, lambda s: set(s["steps"]) & {"solver", "prec"}, single=True)
