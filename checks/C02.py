import shimcache
from vc import main


def run(c):
    c.tlc("ShimCache", "ShimCacheImpl.cfg", workers=8)
    c.tlc("ShimCache", "ShimCacheFinish.cfg", workers=8, expect="violation", count=False)
    if c.thorough:
        c.tlc("ShimCache", "ShimCacheLive.cfg", workers=8)
    shimcache.check(c, "ShimTrace", 250, 3000)
    c.assumptions += ["stand-in compiler; file times advance between an edit and what follows it",
                      "two processes of two threads sharing one cache directory"]


main("C02", run)
