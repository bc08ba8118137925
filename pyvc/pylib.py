"""Library functions whose meaning is given by a program (run by the engine like any other code)."""


def join(parts):
    """''.join(parts)"""
    text = ''
    for part in parts:
        text += part
    return text


def accumulate(items, total):
    """itertools.accumulate: the running sums after total"""
    result = []
    for item in items:
        total = total + item
        result.append(total)
    return result


def takewhile(accept, items):
    """itertools.takewhile"""
    result = []
    for item in items:
        if not accept(item):
            break
        result.append(item)
    return result


def reduce(function, items, value):
    """functools.reduce with an initial value"""
    for item in items:
        value = function(value, item)
    return value


def bisect_right(items, value):
    """bisect.bisect_right of an ascending list"""
    index = 0
    while index < len(items) and items[index] <= value:
        index += 1
    return index


def bisect_left(items, value):
    """bisect.bisect_left of an ascending list"""
    index = 0
    while index < len(items) and items[index] < value:
        index += 1
    return index
