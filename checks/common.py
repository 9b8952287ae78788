"""Builders shared by the harnesses; they work on symbolic and on real values."""


def cpar(ctx, imx=1280, imy=1024, pix_x=0.0625, pix_y=0.0625, num_cams=4, chfield=0, n1=1.0, n2=(1.0,), d=(0.0,), n3=1.0):
    P = ctx.mod("parameters")
    c = P.ControlPar(num_cams=num_cams)
    c.imx, c.imy, c.pix_x, c.pix_y, c.chfield = imx, imy, pix_x, pix_y, chfield
    c.mm = P.MultimediaPar(nlay=len(n2), n1=n1, n2=list(n2), d=list(d), n3=n3)
    return c


def cal(ctx, pos=None, angles=None, prim=None, glass=None, added=None):
    C = ctx.mod("calibration")
    c = C.Calibration()
    if pos is not None:
        c.set_pos(ctx.arr(pos))
    if angles is not None:
        c.set_angles(ctx.arr(angles))
    if prim is not None:
        c.set_primary_point(ctx.arr(prim))
    if glass is not None:
        c.set_glass_vec(ctx.arr(glass))
    if added is not None:
        c.set_added_par(ctx.arr(added))
    return c
