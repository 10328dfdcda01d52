"""A simulated network between tasks: every loss, duplicate, delay and
partition is listed in the plan, so runs replay exactly."""


class Net:
    def __init__(self, sim, faults=(), ctx=None):
        self.sim = sim
        self.n = 0
        self.boxes = {}
        self.fates = {}
        self.parts = []
        for f in faults:
            if f.get("kind") in ("drop", "dup", "delay"):
                self.fates.setdefault(f["n"], []).append(f)
            elif f.get("kind") == "partition":
                self.parts.append(f)

    def cut(self, a, b):
        t = self.sim.now - 1000.0
        return any(f["from"] <= t < f["to"] and (a in f["side"]) != (b in f["side"]) for f in self.parts)

    def send(self, src, dst, msg):
        sim = self.sim
        sim.point("net", "send")
        self.n += 1
        copies = [0.01]
        for f in self.fates.get(self.n, ()):
            sim.fault("message-" + f["kind"])
            if f["kind"] == "drop":
                copies = []
            elif f["kind"] == "dup":
                copies = copies + [0.01 + f["by"]]
            else:
                copies = [c + f["by"] for c in copies]
        if copies and self.cut(src, dst):
            sim.fault("message-partitioned")
            copies = []
        box = self.boxes.setdefault(dst, [])
        for c in copies:
            box.append((sim.now + c, self.n, src, msg))
        sim._wake(("mail", dst))
        for t in sim.tasks:  # receivers wait for a later message or none
            if t.state == "blocked" and t.wait_on == ("mail", dst):
                t.state = "ready"
                t.wait_on = None

    def recv(self, me, timeout):
        """-> (src, msg), or None after the timeout."""
        sim = self.sim
        end = sim.now + timeout
        while True:
            box = self.boxes.setdefault(me, [])
            box.sort(key=lambda m: (m[0], m[1]))
            if box and box[0][0] <= sim.now:
                t, n, src, msg = box.pop(0)
                return src, msg
            if sim.now >= end:
                return None
            until = min([end] + [m[0] for m in box])
            sim.block(("mail", me), deadline=until, where="recv")

    def clear(self, me):
        """What a crashed process had not read yet is lost."""
        self.boxes[me] = []


def gen_faults(rng, names, n=(0, 1, 2, 4, 7), msgs=24):
    out = []
    for _ in range(rng.choice(n)):
        k = rng.choice(["drop", "dup", "dup", "delay", "delay", "partition"])
        if k == "partition":
            a = rng.uniform(0, 3)
            out.append({"kind": k, "from": a, "to": a + rng.uniform(0.1, 4), "side": rng.sample(names, rng.randint(1, max(1, len(names) // 2)))})
        else:
            out.append({"kind": k, "n": rng.randint(1, msgs), "by": rng.choice([0.0, 0.05, 0.5, 3.0])})
    return out
