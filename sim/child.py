"""A separate process of the system: runs a batch of calls with the real clock, entropy and threading."""
import json, os, random, sys, threading


def main():
    job = json.loads(sys.stdin.read())
    if job.get("cpus"):
        os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:job["cpus"]])
    from . import engine
    engine.init(real=True)
    outs = {}

    def work():
        engine.HARNESS.add(threading.get_ident())
        order = list(range(len(job["calls"])))
        random.Random(job["order"]).shuffle(order)
        for i in order:
            outs[i] = engine.solo(job["calls"][i]).out
    if job["thread"]:
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    sys.stdout.write("\n" + json.dumps([outs[i] for i in range(len(job["calls"]))]) + "\n")


if __name__ == "__main__":
    main()
