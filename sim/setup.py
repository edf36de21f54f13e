"""Builds what the checks need (the seam library) and tries one run of every kind of lane."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver

driver.build_seam()
driver.scratch_base()
try:
    for spec in (["cpython", 0], ["pypy", 0]):
        lane = driver.Lane(spec)
        ans = lane.ask(dict(prop="C13", seed=1, run=0))
        lane.stop()
        print(spec, lane.hello["lane"], ans["status"])
        if ans["status"] != "ok":
            print(ans)
finally:
    driver.shutil.rmtree(driver.SCRATCH, ignore_errors=True)
