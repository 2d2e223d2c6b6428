"""What the extracted JavaScript calls: each helper has the meaning of the JavaScript operation it stands for on the values described in js.py."""
import re


class Error(Exception):
    """new Error(message)"""


def at(l, i):
    """l[i] of an array: undefined when there is no such element"""
    return l[i] if 0 <= i < len(l) else None


def text(x):
    """String(x), as in templates"""
    if x is None: return 'undefined'
    if isinstance(x, bool): return 'true' if x else 'false'
    return str(x)


def index_of(l, x):
    if isinstance(l, str): return l.find(x)
    return l.index(x) if x in l else -1


def parse_int(s):
    """parseInt(s, 10); NaN is None"""
    m = re.match(r'[\s\ufeff]*([+-]?[0-9]+)', s) if isinstance(s, str) else None
    return int(m.group(1)) if m else None


def is_nan(x): return x is None


def trim(s): return s.strip('\t\n\v\f\r \xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff')


def substring(s, n): return s[n:]


def is_array(x): return isinstance(x, list)


def re_exec(pattern, s):
    """[whole match, group 1, ...] or None"""
    if not isinstance(s, str): s = text(s)
    m = re.search(pattern, s)
    return [m.group(0)] + list(m.groups()) if m else None


def re_test(pattern, s): return re_exec(pattern, s) is not None


def re_replace(s, pattern, by, every):
    return re.sub(pattern, lambda m: by, s, 0 if every else 1)


def str_replace(s, what, by): return s.replace(what, by, 1)


def re_split(s, pattern): return re.split(pattern, s)
