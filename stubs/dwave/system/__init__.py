"""stand-in: samplers are never reached by the checks"""


class DWaveSampler:
    pass


class EmbeddingComposite:
    def __init__(self, *a):
        self.properties = {}

    def sample(self, bqm, **k):
        return type(self).hook(bqm)

    hook = None


class LeapHybridSampler(EmbeddingComposite):
    pass


class LeapHybridCQMSampler(EmbeddingComposite):
    def sample_cqm(self, cqm, **k):
        return type(self).hook(cqm)
