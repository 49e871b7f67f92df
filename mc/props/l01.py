from mc.props import _batch
_batch.Logs.load()


def HARNESSES(tier):
    return _batch.delivery(_batch.Logs, tier) + _batch.lifecycle(_batch.Logs, tier)
