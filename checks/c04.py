"""Impressed fields in the update equations"""
from checks.c02 import *

FLOOR = 12


def run(ctx):
    ctx.scenario('single line', line_scenario, ctx, 'line', True, True, True, True)
    ctx.scenario('bundle', bundle_scenario, ctx, 'bundle', True)
    return ctx.close(FLOOR, TECH, [R_V, R_I, R_S, R_L])
