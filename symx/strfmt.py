"""str.format, % formatting and f-strings with symbolic arguments."""
import re
import string
from . import ir
from .ir import N, b_lt, b_le
from .engine import Engine, Unsupported
from .values import SymStr, SymInt, SymBool, SymChoice, Sym, mkstr, cs, isstr, has_sym

_spec = re.compile(r'^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(,|_)?(?:\.(\d+))?([bcdeEfFgGnosxX%])?$', re.S)


def digits(e, base, upper=False, width=1):
    """character expressions of the digits of a non-negative int expression (forks on the count), with at least
    width digits (leading zeros)"""
    en = Engine.current
    n = max(1, width)
    while not en.branch(b_lt(e, base ** n)):
        n += 1
        if n > 400:
            raise Unsupported('digits')
    return tuple(ir.n_dig(e, k, base, upper) for k in range(n - 1, -1, -1))


def int_text(v, base=10, upper=False, width=1):
    """(sign, digits) of a symbolic int"""
    e = v.e if isinstance(v, SymInt) else v
    if isinstance(e, N) and e.sort == 'r':
        raise Unsupported('format real')
    en = Engine.current
    neg = en.branch(b_lt(e, 0))
    if neg:
        e = ir.n_neg(e)
    return neg, digits(e, base, upper, 1 if neg else width)


def fmt_value(v, spec):
    """format(v, spec) as str or SymStr"""
    from .runtime import model_str
    if isinstance(spec, SymStr):
        spec = spec.conc()
    if isinstance(v, SymChoice):
        v = v.to_sym()
    if isinstance(v, SymBool):
        v = bool(v) if spec == '' else int(bool(v))
    if not isinstance(v, Sym):
        f = type(v).__format__
        if spec == '' and f is object.__format__:
            return model_str(v)
        if spec == '':
            if type(v) in (list, tuple) or isinstance(v, dict) or isinstance(v, set):
                return model_str(v)
        return format(v, spec)
    m = _spec.match(spec)
    if not m:
        raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    width = int(width) if width else 0
    if isinstance(v, SymStr):
        if typ not in (None, 's') or sign or grp or alt:
            raise ValueError("Unknown format code for object of type 'str'")
        if prec is not None:
            v = v[:int(prec)]
        if len(v) >= width:
            return v
        fill = fill or ('0' if zero else ' ')
        align = align or '<'
        c = cs(v)
        pad = width - len(c)
        if align == '<':
            return mkstr(c + cs(fill) * pad)
        if align == '>':
            return mkstr(cs(fill) * pad + c)
        return mkstr(cs(fill) * (pad // 2) + c + cs(fill) * (pad - pad // 2))
    # SymInt
    if typ == 'c':
        from .runtime import m_chr
        return m_chr(v)
    if typ not in (None, 'd', 'x', 'X', 'o', 'b', 'n') or grp or v.e.sort == 'r':
        return format(v.__float__() if v.e.sort == 'r' else v.__index__(), spec)
    base = {'x': 16, 'X': 16, 'o': 8, 'b': 2}.get(typ, 10)
    zeros = (zero and not align or (fill == '0' and align in ('>', '='))) and not sign and not alt
    neg, ds = int_text(v, base, typ == 'X', width if zeros else 1)
    sg = '-' if neg else ('+' if sign == '+' else (' ' if sign == ' ' else ''))
    if alt and base != 10:
        sg += {'x': '0x', 'X': '0X', 'o': '0o', 'b': '0b'}[typ]
    if zero and not align:
        fill, align = '0', '='
    fill = fill or ' '
    align = align or '>'
    c = ds
    pad = max(0, width - len(c) - len(sg))
    if align == '=':
        return mkstr(cs(sg) + cs(fill) * pad + c)
    if align == '<':
        return mkstr(cs(sg) + c + cs(fill) * pad)
    if align == '>':
        return mkstr(cs(fill) * pad + cs(sg) + c)
    return mkstr(cs(fill) * (pad // 2) + cs(sg) + c + cs(fill) * (pad - pad // 2))


def conv(v, c):
    from .runtime import model_str, model_repr
    if c == 's':
        return model_str(v)
    if c in ('r', 'a'):
        return model_repr(v)
    return v


def fstr(parts):
    """parts: str constants or (value, conv, spec)"""
    res = []
    for p in parts:
        if isinstance(p, tuple):
            v, c, spec = p
            if c != -1:
                v = conv(v, chr(c))
            v = fmt_value(v, spec)
            res.extend(cs(v))
        else:
            res.extend(map(ord, p))
    return mkstr(res)


_F = string.Formatter()


def format_(fmt, args, kw):
    if isinstance(fmt, SymStr):
        fmt = fmt.conc()
    if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in (kw.values() if isinstance(kw, dict) else [])):
        plain = True
        for a in args:
            if not isinstance(a, (str, int, float)):
                plain = False
        if plain and not kw:
            return fmt.format(*args)
    res = []
    auto = 0
    for lit, field, spec, cv in _F.parse(fmt):
        res.extend(map(ord, lit))
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = __import__('_string').formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else kw[first]
        for isattr, i in rest:
            obj = getattr(obj, i) if isattr else obj[i]
        if cv:
            obj = conv(obj, cv)
        if '{' in spec:
            spec = format_(spec, args, kw)
        res.extend(cs(fmt_value(obj, spec)))
    return mkstr(res)


_pct = re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def percent(fmt, args):
    from .runtime import model_str, model_repr
    if isinstance(fmt, SymStr):
        fmt = fmt.conc()
    if isinstance(args, tuple):
        vals = list(args)
    else:
        vals = [args]
    res = []
    pos = 0
    used = 0
    for m in _pct.finditer(fmt):
        res.extend(map(ord, fmt[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            res.append(37)
            continue
        if key is not None:
            v = args[key]
        else:
            if width == '*' or prec == '*':
                raise Unsupported('%*')
            if used >= len(vals):
                raise TypeError("not enough arguments for format string")
            v = vals[used]
            used += 1
        if typ in 'sra':
            v = model_str(v) if typ == 's' else model_repr(v)
            if prec:
                v = v[:int(prec)]
            if width:
                v = SymStr(cs(v)).ljust(int(width)) if '-' in flags else SymStr(cs(v)).rjust(int(width))
            res.extend(cs(v))
        elif isinstance(v, Sym):
            if typ in 'di':
                typ = 'd'
            if typ in 'ui' or prec:
                raise Unsupported('% format')
            if isinstance(v, SymStr):
                if typ == 'c':
                    res.extend(v.c)
                    continue
                raise TypeError("%%%s format: a real number is required, not str" % typ)
            spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else (' ' if ' ' in flags else '')) + \
                ('#' if '#' in flags else '') + ('0' if '0' in flags and '-' not in flags else '') + (width or '') + typ
            res.extend(cs(fmt_value(v, spec)))
        else:
            res.extend(map(ord, ('%' + flags + (width or '') + ('.' + prec if prec else '') + typ) % (v,)))
    res.extend(map(ord, fmt[pos:]))
    if used < len(vals) and not isinstance(args, dict) and '%(' not in fmt:
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(res)
