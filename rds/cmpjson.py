"""Comparison of printed records with expected ones."""
import json, re
from . import model as M

JSONDEC = json.JSONDecoder(object_pairs_hook=None)


class Bad(Exception):
    pass


def _pairs(p):
    d = {}
    for k, v in p:
        if k in d:
            raise Bad('duplicate key %r' % k)
        d[k] = v
    return d


def _const(x):
    raise Bad('not JSON: ' + x)


def parse_lines(out):
    """stdout bytes -> list of records; raises Bad"""
    if out and not out.endswith(b'\n'):
        raise Bad('the last line is not terminated: %r' % out[-200:])
    recs = []
    for line in out.split(b'\n')[:-1]:
        try:
            s = line.decode('utf-8')
        except UnicodeDecodeError:
            raise Bad('invalid UTF-8 in output: %r' % line[:500])
        try:
            v = json.loads(s, object_pairs_hook=_pairs, parse_constant=_const)
        except (ValueError, RecursionError):
            raise Bad('not a JSON object: %r' % s[:500])
        if not isinstance(v, dict):
            raise Bad('not a JSON object: %r' % s[:500])
        recs.append(v)
    return recs


def same(exp, act):
    if exp is M.ANY:
        return True
    if isinstance(exp, tuple) and exp and exp[0] == 'bler':
        return type(act) is int and abs(act - 100.0 * exp[1] / 48) <= 0.5 + 1e-6
    if isinstance(exp, M.Approx):
        return isinstance(act, (int, float)) and not isinstance(act, bool) and abs(act - exp.v) <= exp.tol
    if isinstance(exp, dict):
        return isinstance(act, dict) and set(exp) == set(act) and all(same(v, act[k]) for k, v in exp.items())
    if isinstance(exp, list):
        return isinstance(act, list) and len(exp) == len(act) and all(map(same, exp, act))
    if isinstance(exp, bool) or isinstance(act, bool):
        return exp is act
    return exp == act


_missing = object()


def show(v):
    if v is _missing:
        return '(nothing)'
    if v is M.ANY:
        return '(anything)'
    return json.dumps(v, ensure_ascii=False, default=lambda o: getattr(o, 'v', str(o)))


def compare(expected, actual, keys=None, lines=None):
    """expected: list from the model (None = no record expected), actual: printed records.
    keys: top-level keys to compare (None = all, except debug). -> message or None"""
    exp = [(i, e) for i, e in enumerate(expected) if e is not None]
    for n, (i, e) in enumerate(exp):
        if n >= len(actual):
            break
        a = actual[n]
        if isinstance(e, M.Raw):
            continue
        ks = keys if keys is not None else (set(e) | set(a)) - {'debug'}
        for k in ks:
            ev, av = e.get(k, _missing), a.get(k, _missing)
            if ev is _missing and av is _missing:
                continue
            if ev is M.ANY:
                continue
            if ev is _missing or av is _missing or not same(ev, av):
                return 'group %d%s: %s should be %s but is %s\n  record: %s' % (
                    i, ' (%s)' % lines[i] if lines else '', k, show(ev), show(av), show(a))
    if len(exp) != len(actual):
        return '%d records expected but %d printed' % (len(exp), len(actual))
    return None
