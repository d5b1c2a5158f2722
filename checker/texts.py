"""A Lib of the crate with stand-ins for the base64 and IDNA libraries."""

import base64

from summ import Lib
from table import Err, Free, Ok, Opaque, Unknown
import specs
import table

DOMAIN = "signature::DomainName"


def text(v):
    while hasattr(v, "vals") and len(v.vals) == 1:
        v = v.vals[0]
    if isinstance(v, bytes):
        v = v.decode("latin-1")
    if not isinstance(v, str):
        raise Unknown("text %r" % (v,))
    return v


def oracle(more=None):
    def f(n, a):
        last = table._last(n)
        if last in ("decode_vec", "decode") and ("base64" in n or "engine::" in n.lower()):
            for x in a[::-1]:
                if isinstance(x, (str, bytes, list)):
                    x = bytes(x).decode("latin-1") if not isinstance(x, str) else x
                    d = specs.b64(x)
                    return Err(Opaque("b64")) if d is None else Ok(list(d))
        if last in ("encode_string", "encode") and ("base64" in n or "engine::" in n.lower()):
            for x in a[::-1]:
                if isinstance(x, (str, bytes, list)):
                    return base64.b64encode(x.encode() if isinstance(x, str) else bytes(x)).decode()
        if last == "domain_to_ascii":
            r = specs.to_ascii(text(a[0]))
            return Err(Opaque("idna")) if r is None else Ok(r)
        if last == "domain_to_unicode":
            s, ok = specs.to_unicode(text(a[0]))
            return (s, Ok(()) if ok else Err(Opaque("idna")))
        if more is not None:
            return more(n, a)
        raise Free(n)
    return f


def lib(prog, more=None, **kw):
    return Lib(prog, oracle=oracle(more), **kw)
