"""Synchronisation with remote server"""
TECHNIQUE = ('stateful property-based testing with a simulated network: '
             'generated remote histories, page limits, delays, remote '
             'activity and connection losses against the remote sequence of '
             'sessions')
NOTE = ('Remote store and local backend are scripted stand-ins, eventer '
        'server, eventer client and synchronisation are real. Persisted '
        'events are visible to queries before they are notified.')

from hypothesis import strategies as st

from vlib import syncer
from vlib.core import Sub


def strategy():
    return syncer.case(True)


def many_strategy():
    """A lot of events is notified while synchronization is in progress"""
    count = st.sampled_from([1020, 1100, 1100, 2500])
    return st.fixed_dictionaries({
        'net': st.fixed_dictionaries({
            'latency': st.sampled_from([[], [1]]), 'chunk': st.just([])}),
        'ids': st.just([7, 9]),
        'remote': st.sampled_from([[], [1], [1] * 1500, [3] * 20]),
        'local': st.integers(0, 1),
        'pages': st.sampled_from([[], [1000, 5000], [400]]),
        'query_before': st.just([]),
        'query_after': st.sampled_from([[3000], [3000, 0]]),
        'notify_delay': st.sampled_from([[], [-1]]),
        'local_delay': st.sampled_from([[], [-1], [1]]),
        'cb_delay': st.just([]),
        'late': st.booleans(),
        'status': st.just('STANDBY'),
        # since the moment in which first query is being answered
        'ops': st.lists(st.tuples(st.tuples(
            st.just('persist'), count.map(lambda i: [1] * i), st.booleans()),
            st.sampled_from([0, 1000])), min_size=1, max_size=2).map(
                lambda i: [(('status', 'STANDBY'), 20), *i])})


def run(case, ctx):
    local, conns = syncer.execute(case, ctx, lambda *_: None)
    ctx.nontrivial = local.registered > 2 and len(case['ops']) > 1


def many_run(case, ctx):
    local, conns = syncer.execute(case, ctx, lambda *_: None)
    ctx.nontrivial = local.registered - conns[-1].count > 1024
    ctx.label('notified sessions', local.registered - conns[-1].count)


def great_strategy():
    """Great sessions, queried and notified"""
    sizes = st.lists(st.sampled_from([1, 1, 3, 130, 300, 1100, 2500, 5000,
                                      9000]), max_size=4)
    return st.fixed_dictionaries({
        'net': st.fixed_dictionaries({
            'latency': st.sampled_from([[], [1]]), 'chunk': st.just([])}),
        'ids': st.just([7, 9]),
        'remote': sizes,
        'local': st.integers(0, 2),
        'pages': st.sampled_from([[], [1000, 5000], [4096]]),
        'query_before': st.sampled_from([[], [5]]),
        'query_after': st.sampled_from([[], [5]]),
        'notify_delay': st.sampled_from([[], [-1]]),
        'local_delay': st.sampled_from([[], [1]]),
        'cb_delay': st.just([]),
        'late': st.booleans(),
        'status': st.just('OPERATIONAL'),
        'ops': st.lists(st.tuples(st.tuples(
            st.just('persist'), sizes, st.booleans()),
            st.sampled_from([0, 20])), max_size=3)})


def great_run(case, ctx):
    syncer.execute(case, ctx, lambda *_: None)
    ctx.nontrivial = max([0, *case['remote'], *(
        j for i in case['ops'] for j in i[0][1])]) > 1000


SUBS = [
    Sub('great', great_strategy, great_run, 48, 1000,
        'cases with session of more than 1000 events'),
    Sub('synchronize', strategy, run, 2000, 60000,
        'cases with more than two registered remote sessions'),
    Sub('many', many_strategy, many_run, 24, 600,
        'cases in which more than 1024 notified events wait for the end of '
        'synchronization')]
