"""the Riccati-Bessel functions"""
import specials


def run(ctx):
    specials.run(ctx, "riccati", 450, 6000)
