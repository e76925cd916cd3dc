"""C01: Bayes update law.  Behaviours of spec/SMC.tla consisting of updates and batch updates
are replayed into the real SMCUpdater; traces of the real updater with real models are checked
against spec/SMCTrace.tla."""
from lib.vlib import import_qinfer
from checks import smcworld as sw
from checks import smctrace


def run(chk):
    q = import_qinfer()
    n = chk.pick(60, 500)
    specs = []
    for i, (NP, TN, TD, mode, canon) in enumerate([
            (3, 1, 2, "same", True), (4, 1, 2, "grow", False), (2, 3, 4, "same", False),
            (3, 0, 1, "same", True), (5, 1, 4, "grow", True), (1, 1, 2, "same", True),
            (12, 1, 2, "same", True), (7, 1, 1, "grow", False)]):
        specs.append(dict(
            conf=sw.base_conf(NP=NP, TN=TN, TD=TD, RESMODE=mode, CANON=canon,
                              POLICY=["error", "warn", "ignore"][i % 3]),
            opset={"update", "batch"}, depth=4 if NP > 6 else 5, num=n,
            kinds=(0, 1, 6, 5) if i % 2 else (0, 2, 6), dts=(1, 2), maxlen=6 if NP > 6 else 8))
    # long histories of rare outcomes: the total likelihood is far below the smallest float
    specs.append(dict(conf=sw.base_conf(NP=1, POLICY="error", CANON=False), opset={"update"}, depth=80, num=3,
                      kinds=(6,), dts=(1,), maxlen=80))
    sw.run_family(chk, q, specs, [dict(conf=sw.base_conf(POLICY="ignore"), kinds=(0, 5, 6)[:chk.pick(2, 3)],
                                       maxlen=chk.pick(2, 3), workers=chk.pick(2, 6))])
    smctrace.run(chk, q, "C01")
