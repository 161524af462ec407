from checks.prio_common import *
PROPERTY = "Q07"
RULE = ("a case = one (discipline, classes, channels, buffer) on scripted per-class times; every event is judged by the transition monitor; "
        "distinct = (discipline, classes, n, buffer, warm, interruptions, served)")


def disciplines(t):
    drive(t, 1200 if t.thorough else 400)


def crowd(t):
    drive(t, 2500, crowd=True)


GROUPS = {"disciplines": (disciplines, 1800, 9000), "crowd": (crowd, 40, 200)}
NEED = {"interruptions": 2000, "queue_starts": 3000, "drops": 200, "disc_No": 500, "disc_NP": 500, "disc_PR": 500, "disc_RS": 500, "disc_RW": 500, "crowded": 6}
