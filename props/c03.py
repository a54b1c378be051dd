from props import utf_common as U


def units(tier):
    return U.units("unsafe_transcode unsafe_transcode_size".split(), tier)


replay_args = U.replay_args
TRUST = U.TRUST
ASSUME = [
    "source length, destination size and limit are between 0 and 2^60; begin <= end",
]
