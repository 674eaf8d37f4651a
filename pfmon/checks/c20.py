"""C20: crack geometries and their factor."""
import numpy as np

import py_fatigue as pf
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.geometry import Cylinder, HollowCylinder, InfiniteSurface
from py_fatigue.geometry import cylinder as cyl
from py_fatigue.utils import to_numba_dict

from pfmon import crack, gen, ref
from pfmon.core import Skip, Workload

RULE = (
    "A case is a set of dimensions: construction, refusals and the factor over "
    "depths against integration of the section. Non-trivial: every case; "
    "distinct by dimensions."
)
REQUIRED_EVENTS = ["factors", "factors_through_growth", "through_the_wall", "built", "refused",
                   "flat_factors", "scaled", "front_bent_back", "narrow_cracks"]
ASSUMPTIONS = ["factor judged where the crack's half angle is below 86 degrees, its front no "
               "deeper than half a circle and not straight up to rounding"]
WORKERS = 3

# a curve that never grows the crack
STILL = dict(slope=3.0, intercept=1e-20, threshold=1e15, critical=1e18)


def observed_factor(geo):
    """Factor at the initial depth, through the crack growth calculation."""
    cg = get_crack_growth(crack.count([1.0], [1.0]), pf.ParisCurve(**STILL), geo)
    return float(cg.geometry_factor[0])


def kernel(geo, depth):
    return float(cyl.f_hol_cyl_01(float(depth), to_numba_dict(dict(geo.__dict__))))


def dims(rng):
    outer = float(10 ** rng.uniform(0, 4))
    wall = float(rng.uniform(0.01, 0.95))
    ratio = float(rng.uniform(0.9, 5.0) if rng.random() < 0.7 else 10 ** rng.uniform(-1.2, 0))
    return dict(outer_diameter=outer, thickness=outer / 2 * wall,
                height=float(10 ** rng.uniform(0, 5)), crack_position="external",
                width_to_depth_ratio=ratio)


def factors(cx):
    rng = cx.rng
    dim = dims(rng)
    t = dim["thickness"]
    depths = t * np.r_[10 ** rng.uniform(-3, 0, 12), rng.uniform(0.3, 0.999999, 4)]
    depths = [float(d) for d in depths if ref.section_judged(d, dim["outer_diameter"],
                                                             dim["width_to_depth_ratio"])]
    if not depths:
        raise Skip
    cx.note(dimensions=dim, depths=depths)
    cx.key(repr(dim), repr(depths))
    geo = HollowCylinder(initial_depth=depths[0], **dim)
    before = crack.describe(geo)
    for d in depths:
        want = ref.net_section_factor(d, dim["outer_diameter"], t, dim["width_to_depth_ratio"])
        cx.close(kernel(geo, d), want, "factor", f"depth {d}", rtol=1e-5)
        cx.event("factors")
        _, c_v, a_h, _ = ref.crack_section(d, dim["outer_diameter"] / 2,
                                             dim["width_to_depth_ratio"])
        if a_h < 0:
            cx.event("front_bent_back")
        if a_h > c_v:
            cx.event("narrow_cracks")
    for d in (t, t * (1 + 1e-12), t * 1.5, t * 100):
        cx.check(kernel(geo, d) == 0.0, "wall", f"factor {kernel(geo, d)} at depth {d}, wall {t}")
        cx.event("through_the_wall")
    near = float(np.nextafter(t, 0))
    if ref.section_judged(near, dim["outer_diameter"], dim["width_to_depth_ratio"]):
        cx.check(kernel(geo, near) > 0, "wall", "zero before the wall is reached")
    want = ref.net_section_factor(depths[0], dim["outer_diameter"], t, dim["width_to_depth_ratio"])
    cx.close(observed_factor(geo), want, "factor", "through the calculation", rtol=1e-5)
    cx.event("factors_through_growth")
    scale = float(10 ** rng.uniform(-2, 2))
    big = {k: v * scale if k in ("outer_diameter", "thickness", "height") else v
           for k, v in dim.items()}
    other = HollowCylinder(initial_depth=depths[0] * scale, **big)
    cx.close(observed_factor(other), want, "factor-scale", f"scaled by {scale}", rtol=1e-5)
    tall = HollowCylinder(initial_depth=depths[0], **{**dim, "height": dim["height"] * 7})
    cx.close(observed_factor(tall), want, "factor-height", "depends on the height", rtol=1e-5)
    cx.event("scaled")
    cx.check(crack.describe(geo) == before, "geometry-changed", "")
    cx.sample(dimensions=dim, depth=depths[0], factor=want)


def construction(cx):
    rng = cx.rng
    dim = dims(rng)
    depth = dim["thickness"] * float(rng.uniform(0.001, 0.99))
    cx.note(dimensions=dim, depth=depth)
    cx.key(repr(dim), depth)
    where = str(rng.choice(["internal", "external"]))
    geo = HollowCylinder(initial_depth=depth, **{**dim, "crack_position": where})
    for name, val in {**dim, "crack_position": where, "initial_depth": depth}.items():
        cx.check(getattr(geo, name) == val, "built", f"{name} is {getattr(geo, name)}")
    text = str(geo)
    cx.check(repr(dim["thickness"]) in text and where in text, "built", "printed summary")
    default = HollowCylinder(initial_depth=depth, **{k: v for k, v in dim.items()
                                                     if k != "width_to_depth_ratio"})
    cx.check(default.width_to_depth_ratio == 2.0, "built", "default ratio")
    cx.event("built")

    def refuse(what, **kw):
        base = {**dim, "initial_depth": depth, **kw}
        cx.raises((ValueError, TypeError), lambda: HollowCylinder(**base), "invalid-geometry", what)

    for name in ("outer_diameter", "thickness", "height", "width_to_depth_ratio", "initial_depth"):
        for val in (0.0, -1.0, -float(rng.uniform(0, 100)) - 1e-9):
            refuse(f"{name}={val}", **{name: val})
    refuse("wall of the radius", thickness=dim["outer_diameter"] / 2)
    refuse("wall above the radius", thickness=dim["outer_diameter"] * float(rng.uniform(0.5001, 2)))
    refuse("wall of the diameter", thickness=dim["outer_diameter"] * 0.99)
    refuse("depth of the wall", initial_depth=dim["thickness"])
    refuse("depth above the wall", initial_depth=dim["thickness"] * float(rng.uniform(1.0001, 3)))
    for pos in ("middle", "", "External", "outside"):
        refuse(f"position {pos!r}", crack_position=pos)
    for bad in (0.0, -2.5):
        cx.raises((ValueError, TypeError), lambda: InfiniteSurface(initial_depth=bad),
                  "invalid-geometry", f"flat surface with depth {bad}")
        cx.raises((ValueError, TypeError), lambda: Cylinder(initial_depth=bad, diameter=1.0, height=1.0),
                  "invalid-geometry", f"cylinder with depth {bad}")
        cx.raises((ValueError, TypeError), lambda: Cylinder(initial_depth=1.0, diameter=bad, height=1.0),
                  "invalid-geometry", f"cylinder with diameter {bad}")
        cx.raises((ValueError, TypeError), lambda: Cylinder(initial_depth=1.0, diameter=1.0, height=bad),
                  "invalid-geometry", f"cylinder with height {bad}")
    flat = InfiniteSurface(initial_depth=depth)
    cx.check(flat.initial_depth == depth, "built", "flat surface")
    cx.check(observed_factor(flat) == 1.0, "flat-factor", f"{observed_factor(flat)}")
    cx.event("flat_factors")
    cc, curve = crack.count([1.0, 2.0], [1.0, 3.0]), pf.ParisCurve(**STILL)
    inner = HollowCylinder(initial_depth=depth, **{**dim, "crack_position": "internal"})
    solid = Cylinder(initial_depth=depth, diameter=dim["outer_diameter"], height=dim["height"])
    for bad in (inner, solid):
        name = type(bad).__name__
        cx.raises((ValueError, NotImplementedError), lambda: get_crack_growth(cc, curve, bad),
                  "no-factor", name)
        cx.raises((ValueError, NotImplementedError),
                  lambda: cc.to_df().cg.calc_growth(curve, bad), "no-factor", name + " table")


def unchanged(cx):
    """Using a geometry leaves it as it was."""
    rng = cx.rng
    geo, curve, par, stress = crack.problem(rng, 30)
    before = (crack.describe(geo), str(geo), repr(sorted(vars(geo).items())))
    cx.note(geometry=before[0])
    cx.key(repr(before[0]), stress)
    first = get_crack_growth(crack.count(stress, np.ones(30)), curve, geo)
    crack.count(stress, np.ones(30)).to_df().cg.calc_growth(curve, geo)
    second = get_crack_growth(crack.count(stress, np.ones(30)), curve, geo)
    cx.check((crack.describe(geo), str(geo), repr(sorted(vars(geo).items()))) == before,
             "geometry-changed", "")
    cx.same(np.array(first.crack_depth), np.array(second.crack_depth), "geometry-changed", "result")


WORKLOADS = [
    Workload("factors", factors, 300, 4000),
    Workload("construction", construction, 80, 800),
    Workload("unchanged", unchanged, 40, 400),
]
