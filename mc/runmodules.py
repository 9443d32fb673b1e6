"""Operations the harnesses place in catalogues: they only record what they were given."""
from eumopps.catalogue.operation import RunModule

LOG = []


def record(**parameters):
    LOG.append(('record', parameters))
    return parameters


def record_b(**parameters):
    LOG.append(('record_b', parameters))
    return parameters


def number(stepindex):
    return stepindex


OUTER = []


def outer(results):
    OUTER.append(results)


class RecordClass(RunModule):
    def __init__(self, a=None, b=None, out=None, label=None):
        self.a = a
        self.b = b
        self.out = out
        self.label = label

    def run(self):
        result = dict(a=self.a, b=self.b, out=self.out, label=self.label)
        LOG.append(('class', result))
        return result
