"""C10: likelihoods of the bundled models (spec/Models.tla)."""
from lib.vlib import import_qinfer
from checks import models


def run(chk):
    q = import_qinfer()
    models.run_family(chk, q, {"lik"}, chk.pick(30, 500), 6, chk.seed)
    models.run_family(chk, q, {"lik", "score"}, chk.pick(15, 250), 4, chk.seed + 1, ["coin", "noisycoin", "ndie3", "ndie4", "rb", "rbi", "inversion", "precession", "vary"])
