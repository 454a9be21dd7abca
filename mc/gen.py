"""Exhaustive enumerations."""
import itertools


def words(alphabet, n):
    """Every string of length exactly n over alphabet."""
    for t in itertools.product(alphabet, repeat=n):
        yield ''.join(t)


def words_upto(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        for w in words(alphabet, k):
            yield w


def tuples_upto(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield t


def blocks(n, size):
    return [[lo, min(n, lo + size)] for lo in range(0, n, size)]


def prefix_roots(alphabet, n, depth=2, lo=0):
    """Roots [prefix, total_length] that partition all words of length lo..n."""
    roots = []
    for k in range(lo, n + 1):
        d = min(depth, k)
        for t in itertools.product(alphabet, repeat=d):
            roots.append([''.join(t), k])
    return roots


def expand_prefix(alphabet):
    def expand(root):
        prefix, k = root
        for t in itertools.product(alphabet, repeat=k - len(prefix)):
            yield prefix + ''.join(t)
    return expand


def blocks2(lo, hi, size):
    return [[a, min(hi, a + size)] for a in range(lo, hi, size)]


def mix(k):
    """Scatter a running number, so that "every n-th case" is not correlated with nested loops."""
    k = (k * 0x9E3779B1 + 0x7F4A7C15) & 0xffffffff
    k ^= k >> 15
    k = (k * 0x85EBCA6B) & 0xffffffff
    return k ^ (k >> 13)


def debruijn(alphabet, k):
    """One cyclic word over the alphabet (made linear) in which every k-gram occurs exactly once."""
    n = len(alphabet)
    a, seq = [0] * (n * k + 1), []

    def db(t, p):
        # iterative form of the standard recursion (Lyndon words whose length divides k)
        stack = [(t, p, None)]
        while stack:
            t, p, j = stack.pop()
            if j is None:
                if t > k:
                    if k % p == 0:
                        seq.extend(a[1:p + 1])
                    continue
                a[t] = a[t - p]
                stack.append((t, p, a[t - p] + 1))
                stack.append((t + 1, p, None))
            elif j < n:
                a[t] = j
                stack.append((t, p, j + 1))
                stack.append((t + 1, t, None))
    db(1, 1)
    seq += seq[:k - 1]
    return [alphabet[i] for i in seq]
