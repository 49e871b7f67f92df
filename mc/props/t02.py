from mc.props import _batch
_batch.Spans.load()


def HARNESSES(tier):
    return _batch.lifecycle(_batch.Spans, tier)
