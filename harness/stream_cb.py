"""User functions handed to real pipelines.

Beam serialises user functions; being importable module-level functions these are pickled
by reference, so that they run in this process and report to the current run's context.
"""
import apache_beam as beam

RUN = None


def map_fn(prev_model, prev_sampleset, elements, incoming, outgoing):
    return RUN.map(prev_model, prev_sampleset, elements, incoming, outgoing)


def solve_fn(solver, model, prev_sampleset, elements, incoming, outgoing):
    return RUN.solve(solver, model, prev_sampleset, elements, incoming, outgoing)


def unmap_fn(sampleset, elements, incoming, outgoing):
    return RUN.unmap(sampleset, elements, incoming, outgoing)


def filter_even(e):
    return e[1][0] % 2 == 0


def filter_none(e):
    return False


def filter_all(e):
    return True


def filter_third(e):
    return e[1][0] % 3 != 1


def filter_last3(e):
    return e[0] >= RUN.newest - 3


FILTERS = [filter_even, filter_none, filter_all, filter_third, filter_last3]


class Recorder(beam.DoFn):
    """Records every output record with its event time, and passes it on."""

    def process(self, element, ts=beam.DoFn.TimestampParam):
        RUN.output(ts, element)
        yield element


PUBLISHED = []


def _publish(message):
    PUBLISHED.append(message)
    return message


class Publish(beam.PTransform):
    """Stand-in for the Pub/Sub sink: keeps the messages it is given."""

    def expand(self, pcoll):
        return pcoll | beam.Map(_publish)


class Arrivals(beam.DoFn):
    def process(self, element):
        RUN.arrival(element)
        yield element
