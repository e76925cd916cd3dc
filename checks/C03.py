"""C03: resampling discipline and the batch schedule."""
from lib.vlib import import_qinfer
from checks import smcworld as sw
from checks import smctrace


def run(chk):
    q = import_qinfer()
    n = chk.pick(40, 400)
    specs, ex = [], []
    i = 0
    for TN, TD in ((1, 2), (3, 4), (1, 1), (0, 1), (1, 4), (2, 1)):
        for mode, canon, cf, NP in (("same", True, False, 4), ("grow", False, True, 3), ("grow", True, False, 12)):
            if NP == 12 and (TN, TD) not in ((1, 2), (1, 1)):
                continue
            i += 1
            specs.append(dict(conf=sw.base_conf(POLICY=["error", "ignore", "warn", "skip"][i % 4], NP=NP, TN=TN, TD=TD,
                                                RESMODE=mode, CANON=canon, CACHEFAIL=cf),
                              opset={"update", "batch", "resample", "peek"}, depth=6 if NP < 6 else 4, num=n,
                              kinds=(0, 2, 3) if i % 2 else (1, 2), dts=(1, 2), maxlen=9))
    for mode in ("same", "grow"):
        ex.append(dict(conf=sw.base_conf(POLICY="ignore", RESMODE=mode, TN=3, TD=4), kinds=(0,),
                       maxlen=chk.pick(2, 4), workers=3))
    sw.run_family(chk, q, specs, ex)
    smctrace.run(chk, q, "C03")
