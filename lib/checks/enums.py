"""Y03: enumerations and builders.  spec/Enums*.tla, harness/t_enums.cpp and the code generated here."""
import hashlib
import itertools
import os
import random
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import vf
from checks.tables import Rows

POOL = ['a', 'ab', 'abc', 'b', 'A', 'AB', 'a_', '_a', 'a1', 'a11', 'aa', 'value', 'Value', 'VALUE', 'value_1', 'value_10', 'value_100',
        'x', 'y', 'z', 'X', 'el1', 'el2', 'el3', 'the_end', 'end', 'none', 'NONE_', 'e1', 'e', 's', 'i', 'os', 'result', 'string', 'l',
        'I', 'O0', 'O', 'long_name_of_a_value_which_goes_on_and_on', 'long_name_of_a_value_which_goes_on_and_o']


def lists(r, sizes):
    out = []
    for n in sizes:
        out.append(r.sample(POOL, n))
    return out


def generate(chk, d, big):
    """The enumerations, in gen_enums.hpp; returns [(name, names, made by the macro)]."""
    r = random.Random(77 + vf.SEED)
    mac = lists(r, list(range(1, 19)) * (3 if big else 1)) + [['a', 'ab', 'b'], ['ab', 'a'], ['B', 'b'], ['x_', 'x']]
    scr = lists(r, list(range(1, 8)) + [12, 18, 19, 25, 40] * (2 if big else 1)) + [['ab', 'a'], ['b', 'B', 'a', 'A']]
    es, txt = [], ['namespace gen {', '']
    for k, names in enumerate(mac):
        e = 'M%d' % k
        txt.append('ENUMERATION_BUILDER(%s, %s);' % (e, ', '.join(names)))
        es.append((e, names, True, 'gen'))
    txt.append('} // namespace gen')
    inc = []
    script = vf.REPO + '/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py'
    for k, names in enumerate(scr):
        e = 'G%d' % k
        sep = [';', ' ; ', ';  ', ',', ', '][k % 5]
        ns, nsarg = [('eprosima', None), ('one::two', 'one;two'), ('gen', 'gen'), ('p::q::r', ' p ; q;r')][k % 4]
        cmd = [sys.executable, script, '-e', e, '-v', sep.join(names)]
        out = e + '.hpp'
        if k % 3:
            out = 'sub%d/dir/%s_file.hpp' % (k, e)
            cmd += ['-o', out]
        if nsarg:
            cmd += ['-n', nsarg]
        p = vf.sh(cmd, timeout=60, cwd=d)
        if p.returncode or not os.path.exists(d + '/' + out):
            chk.violation('the script gives no enumeration of %s: exit %d %s' % (names, p.returncode, p.stderr[-300:]),
                          dict(command=cmd[1:], stderr=p.stderr[-2000:]))
            continue
        inc.append('#include "%s"' % out)
        es.append((e, names, False, ns))
    txt = inc + txt
    for e, names, m, ns in es:
        txt.append('%s(%s, %s, %s)' % ('ENUM_BY_MACRO' if m else 'ENUM_BY_SCRIPT', ns, e, ' COMMA '.join('%s::%s::%s' % (ns, e, x) for x in names)))
    # the macros the macro is made of
    for n in range(19):
        xs = (POOL * 2)[n:2 * n]
        txt.append('static const int count_%d = COUNT_ARGUMENTS(%s);' % (n, ', '.join(xs)))
        if n:
            txt.append('static const std::vector<std::string> each_%d = {APPLY_MACRO_FOR_EACH(STRINGIFY_WITH_COMMA, %s)};' % (n, ', '.join(xs)))
    txt.append('static int count_of(int n) { switch (n) { %s } return -1; }' % ' '.join('case %d: return count_%d;' % (n, n) for n in range(19)))
    txt.append('static std::vector<std::string> each_of(int n) { switch (n) { %s } return {}; }' % ' '.join('case %d: return each_%d;' % (n, n) for n in range(1, 19)))
    with open(d + '/gen_enums.hpp', 'w') as f:
        f.write('\n'.join(txt) + '\n')
    return es


def alone(d, es):
    """The enumerations that do not compile although an empty program with the same headers does."""
    def compiles(name, text):
        p = '%s/alone_%s.cpp' % (d, name)
        with open(p, 'w') as f:
            f.write('#include <cpp_utils/Formatter.hpp>\n#include <cpp_utils/macros/custom_enumeration.hpp>\n' + text)
        c = vf.sh(['g++', '-std=gnu++17', '-w', '-fsyntax-only', '-I' + d] + vf.INC + [p])
        return None if c.returncode == 0 else c.stderr[-1500:]
    if compiles('none', 'int main() {}\n'):
        return []

    def one(x):
        e, names, m, ns = x
        if m:
            t = 'ENUMERATION_BUILDER(%s, %s);\nint f() { return (int)from_string_%s("a"); }\n' % (e, ', '.join(names), e)
        else:
            t = [q for q in open(d + '/gen_enums.hpp').read().split('\n') if q.startswith('#include') and ('"%s.hpp"' % e in q or '/%s_file' % e in q)][0] + '\n'
        return compiles(e, t)
    with ThreadPoolExecutor(vf.NPROC) as ex:
        rs = list(ex.map(one, es))
    return [('the enumeration of %s by the %s does not compile' % (x[1], 'macro' if x[2] else 'script'), dict(names=x[1], error=y))
            for x, y in zip(es, rs) if y]


def near(names):
    for x in names:
        yield from (x, x + ' ', ' ' + x, x[:-1], x + x[-1], x.upper(), x.lower(), x.capitalize(), x + '\0', '"%s"' % x)
    yield from ('', 'nothing', '0', ' ', ',')


def rows(es, big):
    g = Rows(11)
    for e, names, m, _ in es:
        for v in range(len(names)):
            g.add('to_string', names, v, e)
            g.add('print', names, v, e)
        for w in near(names):
            g.add('from_string', names, w, e)
            if m:
                g.add('try_string', names, w, e)
        for f in ('count', 'names', 'vector', 'enumerators') + (('values',) if m else ()):
            g.add(f, names, e)
    for n in range(19):
        g.add('count_arguments', n)
        if n:
            g.add('for_each', (POOL * 2)[n:2 * n], n)
    for a, b in itertools.product(range(-3, 4), repeat=2):
        g.add('max_min', a, b)
    for a, b in [(2**30 - 1, 5), (5, 2**30 - 1), (-2**29, 2**29)]:
        g.add('max_min', a, b)
    # builders: how they are made, keys and values
    keys = ['a', 'b', 'ab', '', 'A', 'aa']
    for k in range(0, 4):
        for ks in itertools.permutations(keys[:5], k):
            vs = [g.r.randint(0, 2) for _ in ks]
            for how in range(6):
                for w in keys if big or k < 3 else g.r.sample(keys, 2):
                    g.add('builder', list(ks), Ints(vs), w, how, ints(vs))
                    g.add('find', list(ks), Ints(vs), w, how, ints(vs))
    # the same key for several values (by sets of keys)
    for _ in range(400 if big else 100):
        n = g.r.randint(2, 6)
        ks = [g.r.choice(keys) for _ in range(n)]
        vs = [g.r.randint(0, 3) for _ in range(n)]
        w = g.r.choice(keys)
        for f in ('builder', 'find'):
            g.add(f, ks, Ints(vs), w, g.r.choice([1, 3, 5]), ints(vs))
    fixed = (['v1', 'one', '1', 'v2', 'andtheend', '3'], [0, 0, 0, 1, 1, 2])
    for w in list(near(fixed[0])) + ['v', 'v3', '2']:
        for f in ('builder', 'find'):
            g.add(f, fixed[0], Ints(fixed[1]), w, 6, ints(fixed[1]))
    return g.rows


class Ints(list):
    """A list of numbers (only for the specification)."""


def ints(vs):
    return ','.join(map(str, vs))


def run():
    chk = vf.Check('Y03')
    big = vf.TIER == 'thorough'
    d = tempfile.mkdtemp(prefix='vf-enums-')
    try:
        es = generate(chk, d, big)
        h = hashlib.sha1()
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.hpp'):
                    h.update(f.encode() + open(os.path.join(root, f), 'rb').read())
        try:
            b = vf.build('t_enums', std='gnu++17', sources=['Formatter', 'exception/Exception'], sched=False, pre_inc=('GEN',), tag=h.hexdigest(), subst={'GEN': d})
        except vf.Infra:
            # is it an enumeration that does not compile
            bad = alone(d, es)
            if not bad:
                raise
            for what, data in bad:
                chk.violation(what, data)
            return chk.finish()
        vf.table(chk, b, rows(es, big), 'EnumsTable')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    chk.cov['enumerations'] = len(es)
    chk.assumptions = ['enumerations of 1 to 18 values (macro) and of 1 to 40 values (script)', 'keys of one value each, except where any of the values is accepted']
    return chk.finish()


CHECKS = {'Y03': run}
TABLES = ['Y03']
