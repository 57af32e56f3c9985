import shimcache
from vc import main


def run(c):
    c.tlc("ShimCache", "ShimCache.cfg", workers=8)
    c.tlc("ShimCache", "ShimCacheImpl.cfg", workers=8)
    c.tlc("ShimCache", "ShimCacheDirect.cfg", workers=8, expect="violation", count=False)
    shimcache.check(c, "ShimPublishTrace", 250, 3000)
    c.assumptions += ["stand-in compiler; POSIX flock and rename",
                      "two processes of two threads sharing one cache directory"]


main("C01", run)
