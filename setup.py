#!/usr/bin/env python3
"""Builds every instrumented variant and harness once, so that a broken tool chain shows at once and the checks find
most of what they need built."""
import concurrent.futures, os, sys
sys.dont_write_bytecode = True
import build, checks

def one(b):
    return b, build.build(b[0], b[1], checks.extra_sources(b[1]))

# one harness of each variant first, with which the library's own objects come
first, rest, seen = [], [], set()
for b in checks.BUILDS + [("asan", os.path.join(build.REPO, "tools", "dumpsubs"))]:
    (rest if b[0] in seen else first).append(b)
    seen.add(b[0])
for jobs, n in ((first, 2), (rest, os.cpu_count() or 4)):
    with concurrent.futures.ThreadPoolExecutor(max_workers=n) as ex:
        for b, p in ex.map(one, jobs):
            print(b[0], b[1], p)
