from checks.prio_common import *
PROPERTY = "Q08"
RULE = ("as Q07 with loads and class mixes that force repeated interruption; each departure instant is compared with the job's due service; "
        "distinct = (discipline, classes, n, buffer, warm, interruptions, served)")


def preempt(t):
    drive(t, 1200 if t.thorough else 500, discs=["PR", "RW", "RS"], buffers=False)


def plain(t):
    drive(t, 1200 if t.thorough else 400, discs=["NP", "No"])


def warm(t):
    drive(t, 1200 if t.thorough else 400, warm=True, buffers=False)


GROUPS = {"preempt": (preempt, 1200, 6000), "plain": (plain, 360, 1800), "warm": (warm, 360, 1800)}
NEED = {"interruptions": 3000, "repeat_interruptions": 500, "warm_starts": 300}
