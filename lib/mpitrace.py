"""Offline checker of the event logs of a monitored MPI job (see mpimon/mpimon.c)."""
import collections
import os
import re


def read(directory):
    logs = {}
    for name in os.listdir(directory):
        m = re.fullmatch(r"rank(\d+)\.log", name)
        if m:
            with open(os.path.join(directory, name), errors="replace") as f:
                # The last line of a process that was killed may be cut.
                logs[int(m.group(1))] = f.read().split("\n")[:-1]
    return logs


def check(directory, size, complete):
    """Violations and statistics. `complete`: every rank came to the end of the program."""
    logs = read(directory)
    violations, stats = [], collections.Counter()
    sent, received = collections.defaultdict(list), collections.defaultdict(list)
    collectives = {}
    for rank, lines in logs.items():
        order = []
        for line in lines:
            w = line.split(" ")
            if w[0] == "S" and len(w) == 5:
                sent[rank, int(w[1]), int(w[2])].append((w[3], int(w[4])))
            elif w[0] == "R" and len(w) == 5:
                received[int(w[1]), rank, int(w[2])].append((w[3], int(w[4])))
            elif w[0] == "C":
                order.append(w[1])
            elif w[0] == "V":
                violations.append(f"rank {rank}: {' '.join(w[1:])}")
            elif w[0] == "E":
                for k, v in zip(w[1::2], w[2::2]):
                    stats[k] += int(v)
        collectives[rank] = order
    for key in set(sent) | set(received):
        s, r = sent.get(key, []), received.get(key, [])
        stats["messages sent"] += len(s)
        stats["messages received"] += len(r)
        stats["bytes received"] += sum(b for _, b in r)
        # Logs of a run that was cut short may end in the middle of a message.
        n = min(len(s), len(r))
        where = f"from rank {key[0]} to rank {key[1]} with tag {key[2]}"
        for i in range(n):
            if s[i] != r[i]:
                violations.append(f"message {i} {where} was sent as {s[i]} and received as {r[i]}")
                break
        else:
            if complete and len(s) != len(r):
                violations.append(f"{len(s)} messages were sent and {len(r)} received {where}")
    if complete:
        orders = {tuple(o) for o in collectives.values()}
        if len(orders) > 1:
            violations.append(f"the ranks did not enter the same collective operations: {[len(o) for o in collectives.values()]}")
        stats["collectives"] += sum(len(o) for o in collectives.values())
    stats["channels"] += len(sent)
    return violations, dict(stats), sorted(logs)
