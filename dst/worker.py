"""Worker process: executes runs of one world, one at a time, as told on stdin."""

import json
import os
import sys
import traceback


def main():
    world, prop, tier, scratch = sys.argv[1:5]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.makedirs(scratch, exist_ok=True)
    sink = os.open(os.path.join(scratch, "out.txt"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC | os.O_APPEND)
    os.dup2(sink, 1)
    os.dup2(sink, 2)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import worlds

    w = worlds.load(world)(dict(prop=prop, tier=tier, scratch=scratch))
    w.progress = os.open(os.path.join(scratch, "progress.jsonl"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    out.write(json.dumps(dict(ready=True)) + "\n")
    for line in sys.stdin:
        msg = json.loads(line)
        try:
            if msg["cmd"] == "run":
                r = w.run(msg["seed"])
            else:
                r = w.replay(msg["cfg"], msg["ops"])
        except BaseException:
            sys.settrace(None)
            r = dict(harness_error=traceback.format_exc()[-4000:], seed=msg.get("seed"))
        os.ftruncate(sink, 0)
        out.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
