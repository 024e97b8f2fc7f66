"""Time for proving: what is not discharged when it ends is undecided."""
import time

END = float('inf')


def start(tier):
    global END
    END = time.time() + (330 if tier == 'quick' else 700)


def over():
    return time.time() > END
