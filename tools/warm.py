"""Build every harness configuration the quick checks use."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, configchecks, paramgenchecks, watch
c = vlib.Check("setup", "other")
for crate, feat, bins, others in [("native", "cfg-default", ["hash", "hist", "mat"], "cfg-std,cfg-permstd"), ("r1cs", "", ["vr1cs", "generic"], "parallel")]:
    c.build_both(crate, feat, bins, others)
for b in ("vwatch", "wmat", "wgeneric", "wgen", "wsched"):
    watch.build(c, b)
cfs = configchecks.configs(c)
for e in configchecks.build_all(c, cfs) + configchecks.build_all(c, cfs, configchecks.build_watched):
    if isinstance(e, Exception):
        print("warm: %s" % e)
paramgenchecks.build(c)
paramgenchecks.build_consts(c)
