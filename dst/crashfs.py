"""Disk states a crash can leave, rebuilt from the log of modifying system calls."""

import os


class Node:
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = bytearray(data)


def initial(root):
    """{absolute path: bytes} of all files below root."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as g:
                out[p] = g.read()
    return out


def ops_of(log):
    """Modifying operations of a log, with open() of an existing file split out."""
    out = []
    for r in log:
        c = r["cls"]
        if c == "OPEN" and r["ret"] >= 0:
            if r["flags"] & os.O_CREAT and not r["len"]:
                out.append(("create", r["path"], r["ino"]))
            elif r["flags"] & os.O_TRUNC:
                out.append(("opentrunc", r["path"], r["ino"]))
            else:
                out.append(("open", r["path"], r["ino"]))
        elif c == "WRITE":
            out.append(("write", r["ino"], r["off"], r["data"]))
        elif c == "TRUNC":
            out.append(("trunc", r["ino"], r["len"]))
        elif c == "SYNC":
            out.append(("sync", r["ino"], r.get("path")))
        elif c == "RENAME":
            out.append(("rename", r["path"], r["path2"]))
        elif c == "LINK":
            out.append(("link", r["path"], r["path2"]))
        elif c == "UNLINK":
            out.append(("unlink", r["path"]))
    return out


def apply(init, ops, keep=None, torn=None):
    """Files after ops; keep(i) False drops a write/truncation; torn: {i: bytes of the write that landed}."""
    ns = {p: Node(b) for p, b in init.items()}
    inos = {}
    for i, o in enumerate(ops):
        k = o[0]
        if k == "create":
            ns[o[1]] = inos[o[2]] = Node()
        elif k in ("open", "opentrunc"):
            n = ns.get(o[1])
            if n is None:
                n = ns[o[1]] = Node()
            inos[o[2]] = n
            if k == "opentrunc" and (keep is None or keep(i)):
                n.data = bytearray()
        elif k == "write":
            if keep is not None and not keep(i):
                continue
            n = inos.get(o[1])
            if n is None:
                continue
            data = o[3] if not torn or i not in torn else o[3][: torn[i]]
            end = o[2] + len(data)
            if len(n.data) < end:
                n.data.extend(b"\0" * (end - len(n.data)))
            n.data[o[2]:end] = data
        elif k == "trunc":
            if keep is not None and not keep(i):
                continue
            n = inos.get(o[1])
            if n is not None:
                if o[2] < len(n.data):
                    del n.data[o[2]:]
                else:
                    n.data.extend(b"\0" * (o[2] - len(n.data)))
        elif k == "rename":
            if o[1] in ns:
                ns[o[2]] = ns.pop(o[1])
        elif k == "link":
            if o[1] in ns:
                ns[o[2]] = ns[o[1]]
        elif k == "unlink":
            ns.pop(o[1], None)
    return {p: bytes(n.data) for p, n in ns.items()}


def process_crash(init, ops, at, torn_frac=None):
    """State after the process is killed after the first `at` operations (the last write possibly torn)."""
    torn = None
    if torn_frac is not None and at and ops[at - 1][0] == "write":
        n = len(ops[at - 1][3])
        torn = {at - 1: int(n * torn_frac)}
    return apply(init, ops[:at], torn=torn)


def power_loss(init, ops, at, meta, rng, lose):
    """State after power is lost after `at` operations: directory operations survive as a prefix of
    length `meta` (never less than what was synced), unsynced writes survive as a random subset."""
    # a write is durable if its inode was synced later, before the crash
    synced_upto = {}
    for i in range(at):
        if ops[i][0] == "sync":
            synced_upto[ops[i][1]] = i

    def ino_of(i):
        o = ops[i]
        if o[0] in ("write", "trunc"):
            return o[1]
        if o[0] == "opentrunc":
            return o[2]
        return None

    kept = {}
    for i in range(at):
        ino = ino_of(i)
        if ino is None:
            continue
        if synced_upto.get(ino, -1) > i:
            kept[i] = True
        else:
            kept[i] = rng.random() >= lose
    torn = {}
    for i, k in kept.items():
        if k and ops[i][0] == "write" and synced_upto.get(ops[i][1], -1) < i and rng.random() < 0.2:
            n = len(ops[i][3])
            torn[i] = min(n, (rng.randint(0, n) // 512) * 512)
    # directory operations after `meta` are lost: drop them from the sequence
    dirs = [i for i in range(at) if ops[i][0] in ("create", "rename", "unlink", "link")]
    lost = set(dirs[meta:])
    # a sync of a file makes its own creation durable (as Linux file systems do)
    seq, idx = [], []
    for i in range(at):
        if i in lost and ops[i][0] in ("rename", "unlink", "link"):
            continue
        seq.append(ops[i])
        idx.append(i)
    t2 = {j: torn[i] for j, i in enumerate(idx) if i in torn}
    return apply(init, seq, keep=lambda j: kept.get(idx[j], True), torn=t2)


def n_dir_ops(ops, at):
    """(directory operations so far, how many of them are certainly durable)"""
    n = durable = 0
    for i in range(at):
        if ops[i][0] in ("create", "rename", "unlink", "link"):
            n += 1
    return n, durable
