def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:n]


def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:n]


def merge(*iterables, key=None, reverse=False):
    return iter(sorted([x for s in iterables for x in s], key=key, reverse=reverse))


def heapify(x):
    x.sort()


def heappush(heap, item):
    heap.append(item)
    heap.sort()


def heappop(heap):
    return heap.pop(0)
