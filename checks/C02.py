"""C02: data history and zero-weight policies."""
from lib.vlib import import_qinfer
from checks import smcworld as sw

POL = ["error", "warn", "ignore", "skip", "reset", "bogus"]


def run(chk):
    q = import_qinfer()
    n = chk.pick(40, 400)
    specs, ex = [], []
    for i, p in enumerate(POL):
        for k, (NP, mode) in enumerate([(3, "same"), (4, "grow")]):
            specs.append(dict(conf=sw.base_conf(POLICY=p, NP=NP, RESMODE=mode, CANON=bool(i % 2) ^ bool(k)),
                              opset={"update", "batch", "bad", "peek"} if k else {"update", "batch"},
                              depth=5, num=n, kinds=(0, 3, 4) if k else (1, 3, 4), dts=(1, 2), maxlen=9))
        ex.append(dict(conf=sw.base_conf(POLICY=p), kinds=(0, 3), maxlen=chk.pick(1, 3),
                       workers=chk.pick(2, 3)))
    sw.run_family(chk, q, specs, ex)
    zero_threshold(chk, q)


def zero_threshold(chk, q):
    """The explicit zero_weight_thresh: totals at or below it count as zero."""
    import numpy as np
    from lib.vlib import call
    # normalised weights sum to one unless the norm is below machine precision, so with a
    # threshold of at least 1 every datum is a zero-weight datum
    for thr, zero in ((None, False), (0.5, False), (1.5, True)):
        for pol, exn in (("error", "RuntimeError"), ("skip", ""), ("bogus", "ValueError")):
            m = sw.make_model(q)
            kw = {} if thr is None else {"zero_weight_thresh": thr}
            up = q.SMCUpdater(m, 3, sw.Prior(), resampler=sw.Resampler(q, 3, "same"),
                              zero_weight_policy=pol, **kw)
            w0 = np.array(up.particle_weights)
            o = call(up.update, 1, sw.ep1(0, 1))
            case = {"thresh": thr, "policy": pol}
            chk.expect(o.exc == (exn if zero else ""), "threshold.exn", case, o.exc + o.msg)
            chk.expect((len(up.normalization_record) == 0) == zero, "threshold.record", case)
            chk.expect(np.array_equal(up.particle_weights, w0) == zero, "threshold.weights", case)
            chk.expect(len(up.data_record) == 1, "threshold.data", case)
    # the smallest totals: outcome 0 of kind 4 has a total weight near 2^-60
    for thr, zero in ((None, True), (0, False), (0.0, False), (1e-20, False), (1e-15, True)):
        for pol, exn in (("error", "RuntimeError"), ("skip", ""), ("bogus", "ValueError")):
            m = sw.make_model(q)
            kw = {} if thr is None else {"zero_weight_thresh": thr}
            up = q.SMCUpdater(m, 3, sw.Prior(), resampler=sw.Resampler(q, 3, "same"),
                              zero_weight_policy=pol, **kw)
            w0 = np.array(up.particle_weights)
            x = np.array(up.particle_locations)[:, 0]
            o = call(up.update, 0, sw.ep1(4, 1), check_for_resample=False)
            case = {"thresh": thr, "policy": pol, "total": "2^-60"}
            chk.expect(o.exc == (exn if zero else ""), "threshold.exn", case, o.exc + o.msg)
            chk.expect((len(up.normalization_record) == 0) == zero, "threshold.record", case)
            chk.expect(len(up.data_record) == 1, "threshold.data", case)
            if zero:
                chk.expect(np.array_equal(up.particle_weights, w0), "threshold.weights", case)
            else:
                w = np.array(up.particle_weights)
                chk.expect(np.all(w > 0) and np.allclose(w / w.sum(), (1 + x) / (1 + x).sum()), "threshold.weights", case, str(w))
