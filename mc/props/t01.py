from mc.props import _batch
_batch.Spans.load()


def HARNESSES(tier):
    return _batch.delivery(_batch.Spans, tier)
