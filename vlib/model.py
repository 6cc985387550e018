"""Reference models, written from documentation only."""
import itertools


def type_matches(event_type, query_type):
    """Documented matching of event type by single query type"""
    i = 0
    for q in query_type:
        if q == '*':
            return True
        if i >= len(event_type):
            return False
        if q != '?' and q != event_type[i]:
            return False
        i += 1
    return i == len(event_type)


def any_matches(event_type, query_types):
    return any(type_matches(event_type, i) for i in query_types)


def universe(alphabet, max_len):
    for n in range(max_len + 1):
        yield from itertools.product(alphabet, repeat=n)
