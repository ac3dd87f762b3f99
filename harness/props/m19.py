"""the spherical Bessel and Hankel functions"""
import specials


def run(ctx):
    specials.run(ctx, "bessel", 450, 6000)
