"""Small detector geometries used as bounds for detector-level properties."""


def small(arr='SCI', rows=4, cols=7, im=(2, 2), im0=(1, 4), pre_cols=4, st=1, end=3, pre_c0=0, overscan_rows=1, pre_r0=0):
    r, c = rows, cols
    return {arr: dict(
        frame_rows=r, frame_cols=c,
        image=dict(rows=im[0], cols=im[1], r0c0=list(im0)),
        prescan=dict(rows=r - pre_r0, cols=pre_cols, r0c0=[pre_r0, pre_c0], col_start=pre_c0 + st, col_end=pre_c0 + end),
        prescan_reliable=dict(rows=r, cols=end - st, r0c0=[0, pre_c0 + st]),
        serial_overscan=dict(rows=r, cols=c - im0[1] - im[1], r0c0=[0, im0[1] + im[1]]),
        parallel_overscan=dict(rows=r - im0[0] - im[0], cols=c - pre_cols, r0c0=[im0[0] + im[0], im0[1]]))}
