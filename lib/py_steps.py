"""Work monitor for the Python implementation: py_steps.py REPO CASES.jsonl
Counts function starts, yields and backward jumps (sys.monitoring) and CPU time of every call."""
import json
import os
import sys
import time

repo, cases_file = sys.argv[1:3]
sys.argv = [sys.argv[0], repo, os.devnull]
import py_driver as D   # noqa: E402

M = sys.monitoring
TOOL = M.PROFILER_ID
M.use_tool_id(TOOL, "steps")
EV = M.events.PY_START | M.events.JUMP | M.events.PY_YIELD | M.events.PY_RESUME
count = 0


class TooMuch(BaseException):
    pass


limit = 0


def tick(*a):
    global count
    count += 1
    if count > limit:
        M.set_events(TOOL, 0)
        raise TooMuch()


for e in (M.events.PY_START, M.events.JUMP, M.events.PY_YIELD, M.events.PY_RESUME):
    M.register_callback(TOOL, e, tick)
for line in open(cases_file, encoding="utf-8"):
    limit, c = json.loads(line)
    count = 0
    t = time.process_time()
    M.set_events(TOOL, EV)
    try:
        try:
            r = D.run(c)[0]
        except Exception as e:
            r = type(e).__name__
    except TooMuch:
        r = "TooMuch"
    M.set_events(TOOL, 0)
    sys.stdout.write(json.dumps([r, count, round(time.process_time() - t, 4)]) + "\n")
    sys.stdout.flush()
