"""stand-in: sampler supplied by the harness"""


class SimulatedAnnealingSampler:
    def sample(self, bqm, *a, **k):
        return type(self).hook(bqm)

    hook = None
