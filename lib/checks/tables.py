"""Functions decided row by row: N01, S01, S02, S03, C02, R01, F01, X01.
spec/{Arith,Str,Enc,Ros,Dates,Codes,Text}.tla with *Table.tla, harness/t_*.cpp."""
import itertools
import random
import vf
from vf import Big


class Rows:
    def __init__(self, seed):
        self.r = random.Random(seed * 1000 + vf.SEED)
        self.rows = []
        self.seen = set()

    def add(self, f, *a):
        k = (f, repr(a))
        if k not in self.seen:
            self.seen.add(k)
            self.rows.append((f, list(a)))


def strings(alpha, n):
    for k in range(n + 1):
        for x in itertools.product(alpha, repeat=k):
            yield ''.join(x)


# ---------------------------------------------------------------------------------------------------- N01
def n01_rows(big):
    g = Rows(1)
    top = 2**32
    edge = sorted({x for k in range(33) for d in range(-2, 3) for x in [2**k + d] if 0 <= x < top} |
                  {3 * 2**k + d for k in range(30) for d in (-1, 0, 1)} | {10**k + d for k in range(10) for d in (-1, 0, 1)})
    for x in list(range(1026)) + edge:
        g.add('is_even', Big(x))
        g.add('is_power_of_2', Big(x))
    n = 130 if big else 70
    for a in range(n):
        for b in range(1, n):
            g.add('fast_module', Big(a), Big(b))
            g.add('fast_division', Big(a), Big(b))
    for _ in range(20000 if big else 3000):
        a, b = g.r.choice(edge), g.r.choice(edge + list(range(1, 70)))
        if g.r.random() < .3:
            a = g.r.randrange(top)
        if b:
            g.add('fast_module', Big(a), Big(b))
            g.add('fast_division', Big(a), Big(b))
    for p in range(32):
        for _ in range(40 if big else 8):
            a = g.r.randrange(top)
            g.add('fast_module', Big(a), Big(2**p))
            g.add('fast_division', Big(a), Big(2**p))
    for l, i, s in itertools.product(range(8), range(1, 8), range(1, 12)):
        g.add('arithmetic_progression_sum', Big(l), Big(i), Big(s))
    for _ in range(8000 if big else 1500):
        s = g.r.choice([1, 2, 3, 7, 10, 100, 1000, 46340, 65535, 65536, 65537, 92681, g.r.randrange(1, 92681)])
        left = top - 1
        i = g.r.randrange(1, max(2, min(top, 2 * left // (s * (s - 1)) + 2 if s > 1 else top)))
        rest = left - i * s * (s - 1) // 2
        lo = g.r.choice([0, 1, max(0, rest // s), g.r.randrange(0, max(1, rest // s + 1))])
        if lo < top:
            g.add('arithmetic_progression_sum', Big(lo), Big(i), Big(s))
    for b in range(40):
        for e in range(34):
            g.add('fast_exponential', Big(b), Big(e))
    for b in edge[:: 1 if big else 7]:
        for e in range(0, 5):
            g.add('fast_exponential', Big(b), Big(e))
    return g.rows


def n01():
    chk = vf.Check('N01')
    big = vf.TIER == 'thorough'
    chk.model('ArithMC', vf.cfg_text(dict(N='60' if big else '30'), init='Init', next_='Next',
                                     invariants=['Laws', 'Progressions', 'Powers']), 'ArithMC')
    b = vf.build('t_math', ['math/math_extension'], sched=False)
    vf.table(chk, b, n01_rows(big), 'ArithTable')
    chk.assumptions = ['arguments as described by the coverage; divisors other than 0, at least one step']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- S01
def s01_rows(big):
    g = Rows(2)
    n = 7 if big else 6
    short = list(strings('ab', 3))
    for s in strings('ab', n):
        for d in short[:15]:
            g.add('split_string', s, d)
            for b in (['', 'a', 'b', 'ab', 'ba', 'aab', 'c'] if len(s) < 6 else ['', 'ab', 'c']):
                g.add('replace_all', s, d, b)
                g.add('replace_first', s, d, b)
    words = ['', 'a', 'ab', 'abc', ',', ';', ', ', 'b,', ' ', '\n', '\r', '\r\n', 'x\ny', '::', ':', 'a::b', '/', '//', 'A', 'Z']
    for _ in range(20000 if big else 2500):
        k = g.r.randint(0, 5)
        s = ''.join(g.r.choice(words) for _ in range(g.r.randint(0, 8)))
        ds = [g.r.choice(words) for _ in range(g.r.randint(0, 4))]
        ss = [''.join(g.r.choice(words) for _ in range(g.r.randint(0, 3))) for _ in range(g.r.randint(0, 4))]
        g.add('split_string', s, g.r.choice(words))
        g.add('replace_all', s, g.r.choice(words), g.r.choice(words))
        g.add('replace_first', s, g.r.choice(words), g.r.choice(words))
        if k == 0:
            g.add('split_string_set', s, ds)
        elif k == 1:
            g.add('split_string_each', ss, g.r.choice(words))
        elif k == 2:
            g.add('strip_str', s, g.r.choice(['', '', 'a', '_', '\n']), ds)
            g.add('strip_str_default', s)
        elif k == 3:
            for f in ('container_to_stream', 'container_to_stream_set', 'container_to_stream_ptr'):
                g.add(f, ss, g.r.choice([';', ',', '', ', ', '{}']))
            g.add('container_to_stream_default', ss)
        elif k == 4:
            g.add('get_keys', ss)
            g.add('get_keys_unordered', ss)
            g.add('convert_set_to_shared', ss)
            g.add('generic_to_string', s)
        elif k == 5 and s:
            g.add('copy_to_void_ptr', s)
    for s in strings(',ab', 4):
        g.add('split_string_set', s, [',', 'a'])
        g.add('split_string_set', s, ['ab', 'a,', ','])
    for s in strings('\r\nx', 5):
        g.add('strip_str_default', s)
    for c in range(256):
        for f in ('to_lowercase', 'to_uppercase'):
            g.add(f, bytes([c]).decode('latin-1'))
            g.add(f, 'a' + bytes([c]).decode('latin-1') + 'Zz')
    for s in strings('aZ@[', 4):
        g.add('to_lowercase', s)
        g.add('to_uppercase', s)
    # patterns: bounded text over two letters against bounded patterns
    texts = list(strings('ab', 4)) + ['A', 'B', 'aB', '.', '.a', 'a/b', '/', 'a.b', '\\', 'a\\b', '*', '?', 'rt/a', 'rt//a', 'c', 'd-']
    for p in strings('ab*?', 4 if big else 3):
        for t in texts:
            g.add('match_pattern', p, t)
    for p in ['[ab]', '[!ab]', '[a-c]', '[!a-c]x', '*[b]*', '[a]?', 'a[bc]', '[b-d]*', '*/*', '/*', '*.b', '.*', '?a', 'rt/*', '*a',
              'a\\b', '\\', '\\*', 'A', 'a*B', '**', '*?', '?*?', 'a*b*a', '*ab*ab*', '[A-Z]*', 'd-', '[!a]']:
        for t in texts + list(strings('abx/', 3)):
            g.add('match_pattern', p, t)
    for _ in range(5000 if big else 800):
        g.add('match_pattern', ''.join(g.r.choice('ab**??') for _ in range(g.r.randint(3, 8))),
              ''.join(g.r.choice('ab') for _ in range(g.r.randint(0, 9))))
    # long texts, with many occurrences
    for k in (130, 300) + ((1000,) if big else ()):
        for b in ('', 'a', ';;;'):
            g.add('replace_all', 'ab,' * k, ',', b)
            g.add('replace_all', 'x' * k + 'aa' * k, 'aa', b)
            g.add('replace_first', 'x' * (4 * k) + 'ab' * k, 'ab', b)
        g.add('split_string', 'ab,' * k, ',')
        g.add('split_string', ('y' * k + '::') * 9, '::')
        g.add('split_string_set', 'a,b;' * (k // 2), [',', ';'])
        g.add('split_string_each', ['a,b' * 3] * (k // 3), ',')
        g.add('strip_str_default', 'a\r\n' * (k // 2))
        g.add('strip_str', 'x_y-' * (k // 2), '.', ['-', '_'])
        for f in ('container_to_stream', 'container_to_stream_ptr'):
            g.add(f, ['w%d' % i for i in range(k)], ', ')
        g.add('container_to_stream_set', ['w%d' % i for i in range(k // 3)], ', ')
        g.add('container_to_stream_default', ['z' * k, 'y' * 4 * k, ''])
        g.add('get_keys', ['k%d' % i for i in range(k // 3)])
        g.add('get_keys_unordered', ['k%d' % i for i in range(k // 3)])
        g.add('convert_set_to_shared', ['k%d' % i for i in range(k // 3)])
        g.add('match_pattern', '*b', 'a' * k + 'b')
        g.add('match_pattern', '*b', 'a' * k)
        g.add('match_pattern', 'a' * k + '?', 'a' * k + 'b')
        g.add('match_pattern', 'a' * k, 'a' * k + 'b')
        g.add('match_pattern', '?' * k, 'a' * k)
    for k in (255, 256, 257, 1023, 1024, 1025, 4100):
        for f in ('to_lowercase', 'to_uppercase', 'generic_to_string', 'copy_to_void_ptr'):
            g.add(f, ('aZ@[-' * k)[:k])
    for v in [0, 1, 9, 10, 11, 99, 100, 12345, 2**31 - 1, -1, -9, -10, -100, -2**31 + 1]:
        g.add('generic_to_string_int', v)
    for a in range(8):
        for b in range(8):
            g.add('file_access_mode', a, b)
    g.add('file_access_names')
    # sets of pointers: (identity, value) with value -1 for nullptr
    kinds = [(1, 1), (2, 2), (3, 1), (4, 3), (0, -1), (5, 2)]

    def enc(ps):
        return bytes(x & 255 for p in ps for x in p).decode('latin-1')

    def flat(ps):
        return [x for p in ps for x in p]
    sets = [c for k in range(4) for c in itertools.combinations(kinds, k)]
    for A in sets:
        for e in kinds:
            g.rows.append(('set_of_ptr_contains', [Flat(flat(A)), e[0], e[1], enc(A)]))
        for B in sets:
            g.rows.append(('are_set_of_ptr_equal', [Flat(flat(A)), Flat(flat(B)), enc(A), enc(B)]))
    return g.rows


class Flat(list):
    """A list of numbers (only for the specification)."""


def s01():
    chk = vf.Check('S01')
    big = vf.TIER == 'thorough'
    chk.model('StrMC', vf.cfg_text(dict(N='6' if big else '5', M='3' if big else '2'), init='Init', next_='Next',
                                   invariants=['SplitLaws', 'ReplaceLaws', 'FirstLaws', 'MatchLaws', 'OrderLaws']), 'StrMC')
    b = vf.build('t_text', ['utils', 'Formatter', 'math/math_extension', 'exception/Exception'], sched=False)
    vf.table(chk, b, s01_rows(big), 'TextTable')
    chk.assumptions = ['"C" locale', 'bracket expressions are closed and not empty, patterns have no NUL']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- S02
def s02_rows(big):
    g = Rows(3)
    some = [0, 1, 63, 64, 127, 128, 191, 192, 255, 0x55, 0xAA]

    def b(*x):
        return bytes(x).decode('latin-1')
    g.add('base64_alphabet')
    g.add('base64_encode', '')
    for x in range(256):
        for f in ('base64_encode', 'base64_both'):
            g.add(f, b(x))
            g.add(f, b(x, x))
            g.add(f, b(0, 0, x))
    for k in (2, 3) + ((4,) if big else ()):
        for x in itertools.product(some if k < 4 else some[:7], repeat=k):
            g.add('base64_encode', b(*x))
            g.add('base64_both', b(*x))
    for _ in range(4000 if big else 500):
        x = b(*[g.r.randrange(256) for _ in range(g.r.randint(0, 40))])
        g.add('base64_encode', x)
        g.add('base64_both', x)
    for k in (56, 57, 58, 76, 77, 190, 191, 192, 255, 256, 257, 1023, 1024, 1025, 3073, 4097):
        x = b(*[g.r.randrange(256) for _ in range(k)])
        g.add('base64_encode', x)
        g.add('base64_both', x)
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    for x in itertools.product('AZaz09+/', repeat=4):
        if g.r.random() < (1 if big else .2):
            g.add('base64_decode', ''.join(x))
    for _ in range(3000 if big else 500):
        x = ''.join(g.r.choice(al) for _ in range(g.r.randint(0, 20)))
        g.add('base64_decode', x + g.r.choice(['', '=', '==', '\n', '*', '=AB', '-_']))
    for c in range(256):
        g.add('base64_decode', 'QUJD' + b(c) + 'QUJD')
    # quantities
    units = ['B', 'KB', 'MB', 'GB', 'TB', 'PB', 'KIB', 'MIB', 'GIB', 'TIB', 'PIB']
    spell = units + [u.replace('I', 'i') for u in units[6:]] + [u.lower() for u in units] + \
        ['', 'b', 'EB', 'BK', 'K', 'Ki', 'KBB', 'kb ', 'KiBs', 'i', 'M B', 'TBs', 'bytes', 'Mb.', '%']
    nums = ['0', '1', '2', '10', '999', '1000', '1023', '1024', '007', '1.5', '2.01', '1.001', '0.1', '0.001', '0.0009', '1.1', '4.35',
            '123.456', '3.1415926535', '0.999999999999', '16383.5', '16384', '16383.999', '18014398509481983', '18014398509481984',
            '17179869183', '17179869184', '18446744073709551615', '18446744073709551616', '18446744073709551614',
            '18446744073709551', '18446744073709551.615', '18446744073709551.616', '18446744073709552', '18446744073709',
            '18446.744073709551615', '18446.744073709551616', '18446', '18447', '9007199254740993', '9223372036854775807',
            '9223372036854775808', '36893488147419103232', '1' + '0' * 30, '9' * 400, '0' * 30 + '5']
    for n in nums:
        for u in spell if len(n) < 40 else units:
            g.add('to_bytes', n + u)
    for n in ['', '.', '1.', '.5', '1..2', '1.2.3', '-1', '+1', '1e3', '1,5', ' 1', '1 ', '0x10', 'a', '1 1', '1.5 5', 'inf', 'nan']:
        for u in ('B', 'KB', 'MiB', ''):
            g.add('to_bytes', n + u)
            g.add('to_bytes', n + ' ' + u)
    for sp in [' ', '  ', '\t', '\n', ' \t ', '\v', '_', '-']:
        g.add('to_bytes', '12' + sp + 'KB')
        g.add('to_bytes', '12KB' + sp)
        g.add('to_bytes', sp + '12KB')
    for _ in range(10000 if big else 1200):
        n = str(g.r.randrange(10 ** g.r.randint(1, 21)))
        if g.r.random() < .6:
            n += '.' + ''.join(g.r.choice('0123456789') for _ in range(g.r.randint(1, 12)))
        g.add('to_bytes', n + g.r.choice(['', ' ']) + g.r.choice(spell[:27]))
    # as many decimals as it takes to say one byte, and less than that
    for k, u in enumerate(units[6:], 1):
        for m in (1, 3, 2**(10 * k) - 1):
            d = str(m * 5**(10 * k)).zfill(10 * k)
            for x in (d, d + '0', d + '1', d + '0' * 40 + '9', str(m * 5**(10 * k) - 1).zfill(10 * k), d[:-1], d[:20], d[:19], d[:18]):
                g.add('to_bytes', '0.' + x + u)
                g.add('to_bytes', '7.' + x + u)
    for k, u in enumerate(units[1:6], 1):
        for x in ('0' * (3 * k - 1) + '1', '9' * (3 * k), '9' * (3 * k) + '9' * 40, '0' * (3 * k - 1) + '1' + '0' * 40, '9' * (3 * k - 1),
                  '0' * (3 * k - 1) + '0' + '9' * 30):
            g.add('to_bytes', '0.' + x + u)
            g.add('to_bytes', '1.' + x + u)
    for _ in range(2000 if big else 200):
        g.add('to_bytes', str(g.r.randrange(30)) + '.' + ''.join(g.r.choice('0123456789') for _ in range(g.r.randint(13, 60))) + g.r.choice(units))
    top = 2**64
    vals = set(range(1200)) | {10**k + d for k in range(20) for d in (-6, -5, -4, -1, 0, 1, 9, 10, 11)} | \
        {top - 1, top - 2, 2**63, 2**53, 2**53 + 1}
    for k in range(1, 6):
        u = 1000**k
        for w in (1, 2, 5, 9, 10, 99, 100, 999):
            for c in (0, 1, 2, 9, 10, 11, 49, 50, 51, 98, 99):
                for t in (0, 1, 4, 5, 6, 9):
                    vals.add(w * u + c * (u // 100) + t * (u // 1000))
                    if k > 1 and big:
                        vals.add(w * u + c * (u // 100) + t * (u // 1000) + 1)
    for _ in range(5000 if big else 600):
        vals.add(g.r.randrange(10 ** g.r.randint(1, 19)))
    for v in sorted(vals):
        # (what a double of the number cannot tell from the middle or from a hundredth is left out)
        if 0 <= v < top:
            x = str(v)
            m = 5 if len(x) > 16 else (len(x) - 1) // 3
            f = x[len(x) - 3 * m:] if m else ''
            if m and any(0 < abs(int(f[2:]) - z) < 10 ** (len(f) - 2) // 10**8 for z in (0, 5 * 10 ** (len(f) - 3), 10 ** (len(f) - 2))):
                continue
            g.add('from_bytes', Big(v))
    for v in sorted({0, 1, 5, 9, 10, 11, 99, 100, 101, 999, 1000, 12345, 99999999, 999999999, 1000000000, 2000000000, 2**31 - 1}):
        for neg in (0, 1):
            if v or not neg:
                for w in list(range(0, 13)) + [20, 31, 32, 33, 64, 100]:
                    for more in (0, 1):
                        if v or w or more:
                            g.add('number_format', neg, str(v), w, more)
    for _ in range(3000 if big else 400):
        g.add('number_format', g.r.randint(0, 1), str(g.r.randrange(1, 10 ** g.r.randint(1, 9))), g.r.randint(0, 14), g.r.randint(0, 1))
    return g.rows


def s02():
    chk = vf.Check('S02')
    big = vf.TIER == 'thorough'
    chk.model('EncMC', vf.cfg_text(dict(N='4' if big else '3', Vals='{0, 1, 63, 64, 127, 128, 255}'), init='Init', next_='Next',
                                   invariants=['Inverse', 'Closest']), 'EncMC')
    b = vf.build('t_enc', ['utils', 'Formatter', 'math/math_extension', 'exception/Exception'], sched=False)
    vf.table(chk, b, s02_rows(big), 'EncTable')
    chk.assumptions = ['from_bytes: numbers a double cannot tell from the middle between two texts are left out, '
                       'and exactly in the middle both are allowed']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- S03
TOPICS = ['get_ros_prefix_if_exists', 'remove_ros_prefix_if_exists', 'demangle_if_ros_topic', 'mangle_if_ros_topic',
          'add_ros_topic_prefix', 'add_ros_service_requester_prefix', 'add_ros_service_response_prefix',
          'demangle_ros_topic_prefix_from_topic', 'demangle_ros_service_prefix_from_topic',
          'demangle_ros_service_request_prefix_from_topic', 'demangle_ros_service_reply_prefix_from_topic',
          'mangle_ros_service_request_prefix_in_topic', 'mangle_ros_service_reply_prefix_in_topic']
TYPES = ['demangle_if_ros_type', 'mangle_if_ros_type', 'demangle_service_type_only', 'mangle_service_type_only']


def s03_rows(big):
    g = Rows(4)
    g.add('get_all_ros_prefixes')
    tw = ['rt', 'rq', 'rr', '/', '/a', 'Request', 'Reply', 'x']
    for k in range(5 if big else 4):
        for w in itertools.product(tw, repeat=k):
            for f in TOPICS:
                g.add(f, ''.join(w))
    yw = ['dds_::', '::', '/msg/', '/srv/', '_Request_', '_Response_', '_', 'a', 'rq/', 'rr/', 'Req']
    for k in range(4):
        for w in itertools.product(yw, repeat=k):
            for f in TYPES:
                g.add(f, ''.join(w))
    pieces = tw + yw + ['msg', 'srv', 'dds_', ':', 'rt/', 'request', 'Msg', 'd', '_Request', 'sponse_', '/msg', 'std_msgs', 'rs/']
    for _ in range(12000 if big else 2500):
        s = ''.join(g.r.choice(pieces) for _ in range(g.r.randint(1, 8)))
        g.add(g.r.choice(TOPICS), s)
        g.add(g.r.choice(TYPES), s)
        for f in ('remove_prefix', 'add_prefix', 'add_suffix'):
            g.add(f, s, g.r.choice(['rt', 'rq', 'r', '', 'a', '/', 'rt/', s[:3], s]))
    # names with the shape of the scheme
    seg = ['a', 'std_msgs', 'msg', 'srv', 'x1', 'dds_', 'rt', 'rq', 'Request', 'Reply']
    typ = ['T', 'String', 'T_', 'Request', 'Add_Request', '_', 'Two_Ints', 'msg', 'Response_']
    for _ in range(6000 if big else 1200):
        ns = [g.r.choice(seg) for _ in range(g.r.randint(1, 4))]
        t = g.r.choice(typ)
        m = g.r.choice(['msg', 'srv', 'action'])
        topic = '/' + '/'.join(ns)
        for s in (topic, 'rt' + topic, 'rq' + topic + 'Request', 'rr' + topic + 'Reply', 'rq' + topic + 'Reply', 'rr' + topic + 'Request',
                  'rs' + topic, topic[1:], 'rt/rt' + topic):
            g.add(g.r.choice(TOPICS), s)
            g.add(g.r.choice(TOPICS), s)
        for s in ('/'.join(ns + [m, t]), 'rq/' + '/'.join(ns + [m, t]), 'rr/' + '/'.join(ns + [m, t]), '::'.join(ns + [m, 'dds_', t + '_']),
                  '::'.join(ns + [m, 'dds_', t + '_Request_']), '::'.join(ns + [m, 'dds_', t + '_Response_'])):
            for f in TYPES:
                g.add(f, s)
    # long names
    for k in (60, 120, 253, 257, 600):
        n = 'n' * k
        for s in ('/' + n, 'rt/' + n, 'rq/' + n + 'Request', 'rr/' + n + 'Reply', n, '/a' * (k // 2), 'rt' + '/a' * (k // 2)):
            for f in TOPICS:
                g.add(f, s)
        for s in (n + '/msg/T', 'a/' * 20 + 'msg/T' + n, n + '::msg::dds_::T_', 'a::' * 20 + 'srv::dds_::' + n + '_Request_', 'rq/' + n + '/srv/T'):
            for f in TYPES:
                g.add(f, s)
        for f in ('remove_prefix', 'add_prefix', 'add_suffix'):
            g.add(f, n + 'm', n)
            g.add(f, n, n + 'm')
    return g.rows


def s03():
    chk = vf.Check('S03')
    big = vf.TIER == 'thorough'
    chk.model('RosMC', vf.cfg_text(dict(N='5' if big else '4'), init='Init', next_='Next',
                                   invariants=['TopicLaws', 'ServiceLaws', 'TypeLaws']), 'RosMC')
    b = vf.build('t_ros', ['ros2_mangling', 'utils', 'Formatter', 'math/math_extension', 'exception/Exception'], sched=False)
    vf.table(chk, b, s03_rows(big), 'RosTable')
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- C02
def day_of(y, m, d):
    import datetime
    return (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days


PART = ['%Y-%m-%d', '%d.%m.%Y %H', '%Y/%m/%d %R', '%Y%m%d:%M']     # what is left out is zero
FULL = ['%Y-%m-%d_%H-%M-%S', '%Y-%m-%d %H:%M:%S', '%d/%m/%Y %H.%M.%S', '%H:%M:%S, %Y %m %d', '%S%M%H %d%m%Y', 'x%Y-%m-%dT%TZ', '%Y/%m/%d %T',
        '[%R:%S] %d.%m.%Y']


def c02_rows(big):
    g = Rows(5)
    R = g.r
    days = set(range(-3, 4)) | {day_of(y, m, d) for y in (1678, 1700, 1800, 1896, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972,
                                                          1999, 2000, 2001, 2019, 2023, 2024, 2037, 2038, 2039, 2099, 2100, 2101, 2200, 2261)
                                for m, d in ((1, 1), (2, 28), (3, 1), (12, 31))}
    days |= {day_of(y, 2, 29) for y in (1696, 1904, 1968, 1972, 2000, 2024, 2096)}
    secs = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399]
    lo, hi = day_of(1678, 1, 1), day_of(2261, 12, 31)
    inst = [(d, s) for d in sorted(days) for s in (secs if abs(d) < 4 or big else secs[::4])]
    inst += [(R.randint(lo, hi), R.randrange(86400)) for _ in range(4000 if big else 500)]
    inst += [(R.randint(-800, 26000), R.randrange(86400)) for _ in range(4000 if big else 500)]
    # around the changes of summer time
    for y in [1971, 2001, 2021, 2024, 2037] + [R.randint(1971, 2060) for _ in range(60 if big else 12)]:
        for m, d0 in ((3, 8), (3, 25), (4, 1), (10, 1), (10, 25), (11, 1)):
            for d in range(d0 - 1 if d0 > 1 else d0, d0 + 7):
                if (day_of(y, m, d) + 4) % 7 == 0:
                    for h in (-8, 0, 1, 2, 3, 6, 7, 8, 16):
                        for s in (0, 1799, 3599):
                            t = day_of(y, m, d) * 86400 + h * 3600 + s
                            inst.append((t // 86400, t % 86400))
    one = ['%Y', '%m', '%d', '%e', '%H', '%I', '%M', '%S', '%y', '%C', '%j', '%p', '%A', '%a', '%B', '%b', '%h', '%w', '%u', '%Z', '%z', '%%',
           '%F', '%T', '%R', '%D', '%n', '%t', '', 'x', 'a%Yb%mc', '%Z_%Y-%m-%d_%H-%M-%S', '%a %b %e %H:%M:%S %Y', '%I:%M %p', '100%% %d',
           '%A, %d %B %Y', '%y%m%d', '%j/%Y', '%Y-%m-%d_%H-%M-%S' * 12]
    def zone(d, loc):
        # (the C library only follows rules of summer time after 1970)
        return R.randrange(6) if d > 400 or not loc else R.choice([0, 1, 5])

    for d, s in inst:
        for f in (one if abs(d) < 2 else R.sample(one, 3)) + [FULL[0]]:
            loc = R.randint(0, 1)
            g.add('timestamp_to_string', d, s, 0, f, zone(d, loc), loc)
        loc = R.randint(0, 1)
        g.add('timestamp_to_string', d, s, R.choice([1, 999, 500000000, 999999999]), FULL[1], zone(d, loc), loc)
        g.add('timestamp_to_string_default', d, s)
        for f in R.sample(FULL, 2):
            g.add('both', d, s, f, R.randrange(6), 0, 1)
            g.add('both', d, s, f, zone(d, 1), 1, 1)
        g.add('both', d, s, FULL[0], R.randrange(6), 0, 0)
        g.add('normalize', d, s)
    for y, m in itertools.product((1678, 1899, 1900, 1969, 1970, 1972, 2000, 2023, 2024, 2100, 2261), range(1, 13)):
        for d in (1, 28, 29, 30, 31):
            if d <= [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]:
                g.add('date_to_timestamp', y, m, d, R.choice([0, 0, 1, 12, 23]), R.choice([0, 1, 59]), R.choice([0, 1, 59]), R.randrange(6))
                g.add('date_to_timestamp_short', y, m, d)
    for _ in range(3000 if big else 400):
        g.add('date_to_timestamp', R.randint(1678, 2261), R.randint(1, 12), R.randint(1, 28), R.randrange(24), R.randrange(60), R.randrange(60),
              R.randrange(6))
    for d, s in inst[::3]:
        g.add('now', d, s, R.randrange(10**9))
        g.add('time_to_timestamp', d, s, R.choice([0, 23, R.randrange(24)]), R.randrange(60), R.choice([0, 59]), R.randrange(6))
    # text that matches, and text that does not
    for _ in range(6000 if big else 900):
        f = R.choice(FULL + PART) if R.random() < .8 else R.choice(PART)
        v = dict(Y='%04d' % R.randint(1678, 2261), m='%02d' % R.randint(1, 12), d='%02d' % R.randint(1, 28), H='%02d' % R.randrange(24),
                 M='%02d' % R.randrange(60), S='%02d' % R.randrange(60))
        if R.random() < .15:
            v[R.choice('mdHM')] = R.choice(['00', '99', '13', '24', '32', '61'])
        v['T'] = v['H'] + ':' + v['M'] + ':' + v['S']
        v['R'] = v['H'] + ':' + v['M']
        x = ''
        k = 0
        while k < len(f):
            if f[k] == '%':
                x += v[f[k + 1]]
                k += 2
            else:
                x += f[k]
                k += 1
        if (v['m'] == '00') or v['d'] == '00':
            continue
        q = R.random()
        if q < .25:
            # (what stands for a digit or for another character is not a digit and not a space)
            p = R.randrange(len(x))
            if x[p] == ' ' or (x[p].isdigit() and p and x[p - 1].isdigit()):
                continue
            x = x[:p] + R.choice('abxyz#') + x[p + 1:]
            if x.startswith('x') and f[0] == 'x' and p == 0:
                continue
        elif q < .35:
            # cut before a number
            cut = [p for p in range(len(x)) if x[p].isdigit() and (p == 0 or not x[p - 1].isdigit())]
            x = x[:R.choice(cut)]
        elif q < .5:
            x += R.choice(['z', ' and more', '_', ':00'])
        loc = R.randint(0, 1)
        g.add('string_to_timestamp', x, f, zone(0 if v['Y'] < '1972' else 9999, loc), loc)
    for v in [0, 1, 999, 1000, 2**31 - 1, 2**31, 2**32 - 1, 65535, 65536]:
        g.add('duration_to_ms', Big(v))
        g.add('sleep_for', Big(v))
    g.add('ends')
    return g.rows


def c02():
    chk = vf.Check('C02')
    big = vf.TIER == 'thorough'
    chk.model('DatesMC', vf.cfg_text(dict(FirstYear='1677', LastYear='2262'), invariants=['Calendar']), 'DatesMC calendar')
    chk.model('DatesMC', vf.cfg_text(dict(FirstYear='1896' if big else '1968', LastYear='2105' if big else '1974'),
                                     invariants=['Calendar', 'ZoneLaws', 'TextLaws']), 'DatesMC zones')
    b = vf.build('t_dates', ['time/time_utils', 'utils', 'Formatter', 'math/math_extension', 'exception/Exception'], sched=False)
    vf.table(chk, b, c02_rows(big), 'DatesTable')
    chk.assumptions = ['"C" locale, instants of the years 1678 to 2261',
                       'text to be read has its numbers with all their digits, or is clearly wrong; the hour repeated when summer time ends '
                       'stands for either instant, the one skipped when it begins for either neighbour',
                       'summer time after 1971 (the C library does not follow its rules before)', 'before the epoch, a fraction of a second may be printed as the second before or after it']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- R01
def r01_rows(big):
    g = Rows(6)
    for c in list(range(-20, 70)) + [100, 1000, 2**31 - 1, -2**31 + 1, 255, 256, 257, 65536, 65540]:
        g.add('from_dds', c)
    for c in range(6):
        g.add('code', c)
        for d in range(6):
            g.add('compare', c, d)
            g.add('copied', c, d)
    g.add('code_default')
    g.add('values')
    for p in list(range(80)) + [255, 256, 1000, 2**31 - 1]:
        g.add('policy', p)

    def mask(ps):
        ps = list(ps)
        g.rows.append(('mask', [Flat(ps), bytes(ps).decode('latin-1')]))
    for k in range(3):
        for ps in itertools.combinations(range(37), k):
            mask(ps)
    mask(range(37))
    mask(range(1, 37))
    for _ in range(4000 if big else 500):
        mask(sorted(g.r.sample(range(37), g.r.randint(3, 36))))
    return g.rows


def r01():
    chk = vf.Check('R01')
    big = vf.TIER == 'thorough'
    b = vf.build('t_codes', ['ReturnCode', 'qos/qos_utils', 'Formatter', 'exception/Exception'], sched=False)
    vf.table(chk, b, r01_rows(big), 'CodesTable')
    chk.assumptions = ['the codes and policies of Fast DDS 3 (its headers are not installed here: shim/fastdds has their names and numbers)']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- F01
def f01_rows(big):
    g = Rows(7)
    R = g.r
    for t in strings('a\n\r', 5 if big else 4):
        for strip in (0, 1):
            for ne in (0, 1):
                g.add('file_to_strings', t, strip, ne)
            g.add('file_to_string', t, strip)
        g.add('file_to_strings_default', t)
        g.add('file_to_string_default', t)
    pieces = ['a', 'line', ' ', '\t', '\n', '\n', '\r\n', '\r', '\0', '\x1a', '\xff', '\xef\xbb\xbf', '\v', '\f', '\n\n', 'x' * 40]
    for _ in range(4000 if big else 600):
        t = ''.join(R.choice(pieces) for _ in range(R.randint(0, 14)))
        g.add('file_to_strings', t, R.randint(0, 1), R.randint(0, 1))
        g.add('file_to_string', t, R.randint(0, 1))
    for c in range(256):
        t = 'a' + bytes([c]).decode('latin-1') + 'b\n'
        g.add('file_to_strings', t, c & 1, c >> 1 & 1)
        g.add('file_to_strings', bytes([c]).decode('latin-1'), 1, 0)
    for n in (1, 1000, 8191, 8192, 70000):
        for t in ('', 'ab', 'a\rb', 'x' * 100):
            g.add('file_many', t, n, R.randint(0, 1))
    for t, n in (('ab', 4095), ('ab', 4096), ('abc', 2731), ('abc', 100000), ('x', 65535), ('x', 65536), ('x', 65537), ('abcdefg', 300000)):
        g.add('file_long', t, n)
    for k in (200, 255, 256, 1023, 1024, 1025, 4095, 4096, 5000):
        g.add('file_to_strings', 'x' * k + '\r\nb\r\n\r\n' + 'z' * k, 1, k & 1)
        g.add('file_to_strings', 'x' * k + '\r\nb\r\n\r\n' + 'z' * k, 0, 0)
        g.add('file_to_string', ('y' * (k - 1) + '\n') * 3, k & 1)
    for k in range(5):
        g.add('file_missing', k)
    for k in range(5):
        for p in range(8):
            for m in range(8):
                g.add('is_file_accessible', p, m, k)
    return g.rows


def f01():
    chk = vf.Check('F01')
    big = vf.TIER == 'thorough'
    chk.model('FilesMC', vf.cfg_text(dict(N='9' if big else '7'), init='Init', next_='Next', invariants=['LineLaws']), 'FilesMC')
    b = vf.build('t_files', ['file/file_utils', 'utils', 'Formatter', 'math/math_extension', 'exception/Exception'], sched=False)
    vf.table(chk, b, f01_rows(big), 'FilesTable')
    chk.assumptions = ['ordinary files; permissions as an ordinary user sees them (the harness gives up root)']
    return chk.finish()


# ---------------------------------------------------------------------------------------------------- X01
def x01_rows(big):
    g = Rows(8)
    R = g.r
    pieces = ['', 'a', ' ', 'message', '%s', '%n', '\n', '\t', '\xe9', '"', '{', '0', '\\', 'x' * 300, '\0', 'a\0b']
    for k in range(1, 4):
        for ss in itertools.product(pieces[:9] + pieces[-2:], repeat=k):
            if k < 3 or R.random() < (1 if big else .3):
                g.add('formatter', list(ss))
    for _ in range(1000 if big else 200):
        g.add('formatter', [R.choice(pieces) for _ in range(R.randint(1, 12))])
        g.add('formatter_values', R.choice([0, 1, -1, 42, -2**31 + 1, 2**31 - 1, R.randrange(10**6)]), R.choice('aZ \n0'), R.randint(0, 1),
              str(R.choice([0, 1, 2**32, 2**64 - 1, R.randrange(2**64)])), R.choice(pieces[:-2]))
        g.add('formatter_apart', R.choice(pieces), R.choice(pieces))
        g.add('formatter_of_exception', R.choice(pieces), R.choice(pieces[:-2]))
    for k in (200, 513, 1100, 5000):
        g.add('formatter', ['ab%s\n'] * (k // 10) + ['x' * k, '\0', 'y'])
        g.add('formatter_values', -7, 'c', 1, '12345678901', 'z' * k)
        g.add('formatter_apart', 'p' * k, 'q' * (k + 1))
        g.add('formatter_of_exception', 'p' * k, 'q' * (k + 1))
        for c in range(1, 12):
            g.add('exception', c, k % 3, 'm' * k)
        g.add('exception_assigned', 3, 'm' * k, 'n' * (k + 1))
    g.add('formatter_empty')
    for c in range(1, 12):
        for w in range(3):
            for m in pieces:
                g.add('exception', c, w, m)
        for m in pieces[:8]:
            g.add('exception_assigned', c, m, R.choice(pieces))
    for d in range(1, 8):
        for t in range(1, 8):
            g.add('can_cast', d, t, 1)
            g.add('can_cast', d, t, 0)
    g.add('cast_to_void_ptr')
    return g.rows


def x01():
    chk = vf.Check('X01')
    big = vf.TIER == 'thorough'
    b = vf.build('t_msgs', ['Formatter', 'exception/Exception'], sched=False)
    vf.table(chk, b, x01_rows(big), 'MsgsTable')
    chk.assumptions = ['what() is text up to the first NUL']
    return chk.finish()


CHECKS = {'N01': n01, 'S01': s01, 'S02': s02, 'S03': s03, 'C02': c02, 'R01': r01, 'F01': f01, 'X01': x01}
TABLES = list(CHECKS)
