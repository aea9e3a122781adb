"""texts as people paste them: dressed up in ways a helpful program might see through"""
PAIRS = ('""', "''", '()', '<>', '[]', '{}', '  ', '\t\n', '``', '\u201c\u201d', '\u00ab\u00bb', '\n\n', '\r\n')
LEAD = ('neo:', 'NEO:', 'address:', 'wif:', '0x', '0X', 'x', '#', '=', ':', '+', '\ufeff', '\u200b', '\u00a0', '\u2003', 'http://', '@', '$', '%', '//', '\\x', "b'", '-', '_', '1', '0')
TRAIL = (',', '.', ';', '\r', '\r\n', '\n', '\0', '\u200b', '\u00a0', '=', '==', '%', '"', "'", ')', '_', '-', '\ufeff', 'h', 'L', '\x0b', '\x0c', '\x1f', '\x85', '\u2028')
LOOK = {'1': 'lI|', '0': 'OoQ', 'o': '0', 'O': '0', 'l': '1I', 'i': '1l', 'I': '1l', 'B': '8', '8': 'B', 'S': '5', '5': 'S', 'b': '6', 'Z': '2', '2': 'Z',
        'a': '\u0430', 'A': '\u0410', 'e': '\u0435', 'x': '\u0445\u00d7', 'c': '\u0441', 'p': '\u0440'}


def clothed(rng, s):
    c = rng.randrange(9)
    if c == 0:
        p = rng.choice(PAIRS)
        return p[0] + s + p[1]
    if c == 1:
        return rng.choice(LEAD) + s
    if c == 2:
        return s + rng.choice(TRAIL)
    if c == 3:                               # groups
        n, g = rng.choice((2, 4, 5, 8)), rng.choice(' -_:\n,.')
        return g.join(s[i:i + n] for i in range(0, len(s), n))
    if c == 4:                               # characters that look alike
        at = [i for i, x in enumerate(s) if x in LOOK]
        if at:
            i = rng.choice(at)
            if rng.random() < 0.3:           # all of them
                return s.replace(s[i], LOOK[s[i]][0])
            return s[:i] + rng.choice(LOOK[s[i]]) + s[i + 1:]
        return s + s
    if c == 5:                               # full width, all or one
        w = lambda x: chr(ord(x) + 0xfee0) if '!' <= x <= '~' else x
        if rng.random() < 0.5 or not s:
            return ''.join(map(w, s))
        i = rng.randrange(len(s))
        return s[:i] + w(s[i]) + s[i + 1:]
    if c == 6:                               # an invisible character inside
        i = rng.randrange(len(s) + 1)
        return s[:i] + rng.choice('\u200b\u00ad\ufeff\u2060 \t\n\0_-') + s[i:]
    if c == 7:
        return rng.choice((s.upper(), s.lower(), s.swapcase(), s.title(), s[::-1]))
    return rng.choice((s + s, s + '\n' + s, s + ' ' + s, repr(s), repr(s.encode('utf-8', 'replace')), ' ' * 3 + s, '%s#1' % s))
