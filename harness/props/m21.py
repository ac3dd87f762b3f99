"""angular functions and vector spherical harmonics"""
import specials


def run(ctx):
    specials.run(ctx, "angular", 450, 6000)
