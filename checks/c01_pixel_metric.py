"""C01: pixel and metric image coordinates are exact inverses, and follow the documented frame."""
from checks.common import cpar

PROP = "C01"
BOUNDS = "all image sizes 1..100000, all positive pixel sizes, all real coordinates; arrays of 1..3 points"
OUTSIDE = "binary rounding of floating point arithmetic (reals are used)"
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "int32 image sizes do not overflow"]


def cases(tier):
    n = 3 if tier == "quick" else 6
    return ([{"name": "scalar-roundtrip", "args": {"what": "scalar"}}, {"name": "metric-first", "args": {"what": "inv"}},
             {"name": "frame", "args": {"what": "frame"}}]
            + [{"name": f"array-{k}", "args": {"what": "array", "n": k}} for k in range(1, n + 1)])


def run(ctx, what, n=0):
    T = ctx.mod("trafo")
    imx, imy = ctx.int("imx", 1, 100000), ctx.int("imy", 1, 100000)
    px, py = ctx.real("pix_x"), ctx.real("pix_y")
    ctx.assume(px > 0)
    ctx.assume(py > 0)
    cp = cpar(ctx, imx, imy, px, py)
    tol = 1e-6
    if what == "scalar":
        x, y = ctx.real("x", -1e6, 1e6), ctx.real("y", -1e6, 1e6)
        mx, my = T.pixel_to_metric(x, y, cp)
        ctx.observe("metric", [mx, my])
        bx, by = T.metric_to_pixel(mx, my, cp)
        ctx.close(bx, x, tol, "metric_to_pixel inverts pixel_to_metric (x)")
        ctx.close(by, y, tol, "metric_to_pixel inverts pixel_to_metric (y)")
    elif what == "inv":
        x, y = ctx.real("x", -1e3, 1e3), ctx.real("y", -1e3, 1e3)
        mx, my = T.metric_to_pixel(x, y, cp)
        ctx.observe("pixel", [mx, my])
        bx, by = T.pixel_to_metric(mx, my, cp)
        ctx.close(bx, x, tol, "pixel_to_metric inverts metric_to_pixel (x)")
        ctx.close(by, y, tol, "pixel_to_metric inverts metric_to_pixel (y)")
    elif what == "frame":
        # origin in the image centre, x to the right, y up, scaled by the pixel size
        x, y = ctx.real("x", -1e6, 1e6), ctx.real("y", -1e6, 1e6)
        ctx.assume(ctx.and_(px <= 1000, py <= 1000))
        mx, my = T.pixel_to_metric(x, y, cp)
        ctx.observe("metric", [mx, my])
        ctx.close(mx * 2, (2 * x - imx) * px, tol, "metric x is the offset from the image centre")
        ctx.close(my * 2, (imy - 2 * y) * py, tol, "metric y is the upward offset from the image centre")
    else:
        pts = [[ctx.int(f"x{i}", -100000, 100000), ctx.int(f"y{i}", -100000, 100000)] for i in range(n)]
        A = T.arr_pixel_to_metric(ctx.arr(pts, "i"), imx, imy, px, py)
        ctx.observe("arr", A)
        back = T.arr_metric_to_pixel(A, cp)
        for i in range(n):
            sx, sy = T.pixel_to_metric(pts[i][0], pts[i][1], cp)
            ctx.close(A[i, 0], sx, tol, "array conversion agrees with scalar conversion (x)")
            ctx.close(A[i, 1], sy, tol, "array conversion agrees with scalar conversion (y)")
            qx, qy = T.metric_to_pixel(sx, sy, cp)
            ctx.close(back[i, 0], qx, tol, "array inverse agrees with scalar inverse (x)")
            ctx.close(back[i, 1], qy, tol, "array inverse agrees with scalar inverse (y)")
            ctx.close(back[i, 0], pts[i][0], tol, "array conversion round trip (x)")
            ctx.close(back[i, 1], pts[i][1], tol, "array conversion round trip (y)")
