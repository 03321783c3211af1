"""Texts and token streams for the LZHUF checks. Only a source of inputs: what they mean is
decided by spec/TraceLz.tla."""
import copy

N = 2048
F = 60
NC = 314
T = NC * 2 - 1
R = T - 1
MAXF = 0x8000


class Tree:
    def __init__(s, maxf=MAXF, up=1, tie=0):
        s.maxf, s.up, s.tie = maxf, up, tie
        s.f = [0] * (T + 1)
        s.p = [0] * (T + NC)
        s.c = [0] * T
        for i in range(NC):
            s.f[i] = 1
            s.c[i] = i + T
            s.p[i + T] = i
        i, j = 0, NC
        while j <= R:
            s.f[j] = s.f[i] + s.f[i + 1]
            s.c[j] = i
            s.p[i] = s.p[i + 1] = j
            i += 2
            j += 1
        s.f[T] = 0xffff
        s.p[R] = 0

    def rebuild(s):
        j = 0
        for i in range(T):
            if s.c[i] >= T:
                s.f[j] = max(1, (s.f[i] + s.up) // 2)
                s.c[j] = s.c[i]
                j += 1
        i = 0
        for j in range(NC, T):
            f = s.f[i] + s.f[i + 1]
            k = j - 1
            while f < s.f[k] + s.tie:
                k -= 1
            k += 1
            s.f[k + 1:j + 1] = s.f[k:j]
            s.f[k] = f
            s.c[k + 1:j + 1] = s.c[k:j]
            s.c[k] = i
            i += 2
        for i in range(T):
            k = s.c[i]
            if k >= T:
                s.p[k] = i
            else:
                s.p[k] = s.p[k + 1] = i

    def update(s, c):
        if s.f[R] == s.maxf:
            s.rebuild()
        c = s.p[c + T]
        f = s.f
        while 1:
            f[c] += 1
            k = f[c]
            l = c + 1
            if k > f[l]:
                while k > f[l + 1]:
                    l += 1
                f[c] = f[l]
                f[l] = k
                i = s.c[c]
                s.p[i] = l
                if i < T:
                    s.p[i + 1] = l
                j = s.c[l]
                s.c[l] = i
                s.p[j] = c
                if j < T:
                    s.p[j + 1] = c
                s.c[c] = j
                c = l
            c = s.p[c]
            if c == 0:
                break

    def code(s, c):
        k = s.p[c + T]
        b = []
        while k != R:
            b.append(k & 1)
            k = s.p[k]
        b.reverse()
        return b


PL = [3] + [4] * 3 + [5] * 8 + [6] * 12 + [7] * 24 + [8] * 16
PC = []
_x = 0
for _l in PL:
    PC.append(_x >> (8 - _l))
    _x += 1 << (8 - _l)


def position(c):
    i = c >> 6
    return [(PC[i] >> (PL[i] - 1 - k)) & 1 for k in range(PL[i])] + [(c >> (5 - k)) & 1 for k in range(6)]


def encode(tokens):
    """tokens: characters, or (length, distance). Returns bytes and text."""
    t, bits, out = Tree(), [], bytearray()
    for tk in tokens:
        if isinstance(tk, int):
            bits += t.code(tk)
            t.update(tk)
            out.append(tk)
        else:
            n, d = tk
            s = 253 + n
            bits += t.code(s)
            t.update(s)
            bits += position(d - 1)
            for _ in range(n):
                out.append(out[-d] if d <= len(out) else 32)
    bits += [0] * (-len(bits) % 8)
    return bytes(int(''.join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8)), bytes(out)


def telling(r, tries=12):
    """Texts of characters after whose rebuild slightly different codes would write something else:
    rebuilt a symbol early or late, halved differently, or with equal weights in another order."""
    others = [dict(maxf=MAXF - 1), dict(maxf=MAXF + 1), dict(up=0), dict(tie=1)]
    out = []
    for _ in range(tries):
        if not others:
            break
        a = r.sample(range(256), r.choice([60, 120, 256]))
        w = r.choice([0, 0, 0.02])
        pick = lambda: a[min(len(a) - 1, int(r.expovariate(w)))] if w else r.choice(a)
        text = [pick() for _ in range(34600)]
        t = Tree()
        for c in text[:32440]:
            t.update(c)
        def tail(**k):
            u = copy.deepcopy(t)
            u.__dict__.update(k)
            z = []
            for c in text[32440:]:
                z.append(u.code(c))
                u.update(c)
            return z
        z = tail()
        left = [k for k in others if tail(**k) == z]
        if len(left) < len(others):
            out.append(text)
        others = left
    return out


WEIGHTS = [10520, 6500, 4010, 2480, 1525, 950, 570, 375, 190]


def deep_text(r, n=10 ** 9):
    """A text whose matches (of lengths 3 to 11) have the weights of a very skewed code, then rare characters."""
    toks = []
    for i, w in enumerate(WEIGHTS):
        toks += [3 + i] * w
    r.shuffle(toks)
    text = bytearray(range(64))
    r.shuffle(text)
    prev = None
    for k in toks[:n]:
        w = min(len(text), 1980)
        for _ in range(200):
            s = len(text) - r.randrange(k + 1, w)
            if prev is None or text.find(text[len(text) - prev:] + text[s:s + 1], max(0, len(text) - 2048)) < 0:
                break
        text += text[s:s + k]
        prev = k
    return bytes(text) + bytes(range(248, 256))


def deep_tokens(r):
    """Characters with very skewed weights, so that rare ones have very long codes, then rare ones."""
    toks = []
    for i, w in enumerate(WEIGHTS):
        toks += [97 + i] * w
    r.shuffle(toks)
    rare = list(range(150, 256))
    r.shuffle(rare)
    return toks + rare + [(60, 1), (59, 7), 0] + toks[:50]
