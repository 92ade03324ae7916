"""Compare a test run (OUT.json of /opt/vp/test.sh) with the baseline."""
import json
import sys

base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
out = set(json.load(open(sys.argv[1]))["passed"])
print("broken:", sorted(base - out) or "none")
