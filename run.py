#!/opt/vp/venv/bin/python
"""run.py <check> [--replay FILE]   (VERIF_SEED, VERIF_TIER in the environment)"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("check")
ap.add_argument("--replay")
ap.add_argument("--replay-worker")
ap.add_argument("--worker", type=int)
ap.add_argument("--out")
ap.add_argument("--slot")
ap.add_argument("--only")
ap.add_argument("--isolate", action="store_true")
a = ap.parse_args()
if a.replay_worker:
    harness.replay_worker(a.check, a.replay_worker)
elif a.worker is not None:
    harness.worker(a.check, a.worker, a.out, a.slot, a.only, a.isolate)
else:
    sys.exit(harness.main(a.check, a.replay and os.path.abspath(a.replay)))
