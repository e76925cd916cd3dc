"""C04: reset."""
from lib.vlib import import_qinfer
from checks import smcworld as sw


def run(chk):
    q = import_qinfer()
    n = chk.pick(60, 600)
    specs, ex = [], []
    for i, (NP, mode, canon, pol) in enumerate([
            (3, "same", True, "reset"), (4, "grow", True, "error"), (3, "grow", False, "ignore"),
            (2, "same", False, "skip"), (1, "same", True, "warn"), (5, "grow", True, "reset")]):
        specs.append(dict(conf=sw.base_conf(POLICY=pol, NP=NP, RESMODE=mode, CANON=canon),
                          opset={"update", "reset", "preset", "resample", "bad"}, depth=6, num=n,
                          kinds=(0, 3), dts=(1,), maxlen=8))
        specs.append(dict(conf=sw.base_conf(POLICY=pol, NP=NP, RESMODE=mode, CANON=canon),
                          opset={"update", "reset", "preset", "batch", "peek"}, depth=4, num=n,
                          kinds=(1, 3), dts=(1, 2), maxlen=8))
    ex.append(dict(conf=sw.base_conf(POLICY="reset", RESMODE="grow"), kinds=(0, 3), maxlen=chk.pick(2, 4), workers=4))
    sw.run_family(chk, q, specs, ex)
