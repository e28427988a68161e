"""Build what the checks need from /repo's working tree (a check does it too when the tree has changed)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import impls   # noqa: E402

for f in (impls.build_ts, impls.build_rs):
    try:
        print(f())
    except impls.BuildError as e:
        print(e)
