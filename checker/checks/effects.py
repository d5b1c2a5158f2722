# properties: C24
"""Ambient effects: what the bodies of the library mention at all."""

import re

import refs
from main import Missing

CONFIGS = ("default", "pre-rfc8301")

FORBIDDEN = [
    (r"std::(fs|net|process|env|os)::", "ambient operating system access"),
    (r"std::path::Path::(exists|try_exists|metadata|symlink_metadata|read_dir|read_link|canonicalize|is_file|is_dir|is_symlink)$", "file system access"),
    (r"std::io::(stdin|stdout|stderr|_print|_eprint|print_to)", "standard streams"),
    (r"std::thread::(spawn|Builder|scope|LocalKey|local_impl|Thread)", "threads or thread-local state"),
    (r"std::thread::(sleep|park|yield_now)", "blocking the thread"),
    (r"tokio::(fs|net|process|signal|io|runtime|task|sync::OnceCell)", "spawning or input and output"),
    (r"std::sync::(OnceLock|LazyLock|Once)|std::sync::(lazy_lock|once_lock)", "global state"),
    (r"std::panic::(set_hook|take_hook)|std::alloc::|libc::", "process-wide settings"),
    (r"(^|::)ffi::|core::ptr::(read|write)", "raw memory"),
]
CLOCK = re.compile(r"(std::time::(SystemTime|Instant)|tokio::time::Instant)::(now|elapsed)$")
SECRET = re.compile(r"(^|[^\w:])(rsa::(key::)?RsaPrivateKey|ed25519_dalek::(signing::)?SigningKey|crypto::SigningKey|(pkcs8::|der::)(document::)?(SecretDocument|Document)|pkcs8::PrivateKeyInfo)\b")
KEEP = {"sign", "try_sign", "sign_with_rng", "verifying_key", "to_public_key", "as_ref", "size", "validate", "n", "e",
        "signature_length", "key_type", "clone", "try_from", "try_into", "into", "from", "drop", "deref", "borrow", "new", "eq", "ne"}
FORMAT = re.compile(r"core::fmt::rt::Argument::<'_>::new_|tracing::field::(display|debug)$|std::fmt::(Display|Debug|LowerHex|UpperHex)::fmt$|std::string::ToString::to_string$|tracing::Value|field::Value")


def is_secret(t):
    return bool(SECRET.search(t["s"])) if t.get("k") in ("adt", "param", "ref", "alias") else False


def debug_impl(p, key):
    it = p.item_by_key.get(key)
    return it is not None and it["trait"] in ("std::fmt::Debug", "std::fmt::Display")


def check(prop, ctx):
    ctx.rule("every function, static and unsafe block of the library is listed; every function mentioned in a body is matched against the forbidden effects; the clock may be read only under the guards of C06 and C27; no value of a private key type, nor bytes taken from one, is formatted or traced")
    for config in CONFIGS:
        p = ctx.program(config)
        for u in p.unsafe:
            ctx.violation("%s/unsafe %s" % (config, u["span"]), "unsafe code", u["span"])
        for it in p.items:
            if it.get("unsafe"):
                ctx.violation("%s/unsafe %s" % (config, it["pretty"]), "unsafe function %s" % it["pretty"], it["span"])
        for s in p.statics:
            ctx.count("statics")
            if s["mut"] or (not s["freeze"] and not s["ty"].startswith("tracing::callsite::")):
                ctx.violation("%s/static %s" % (config, s["path"]), "mutable global state %s of type %s" % (s["path"], s["ty"]), s["span"])
        for c in p.consts:
            v = c.get("value")
            if "LocalKey" in str(v)[:400]:
                ctx.violation("%s/const %s" % (config, c["path"]), "thread-local state %s" % c["path"], c["span"])
        for key, f in p.local_fns():
            ctx.count("functions")
            for info, span in refs.fn_refs(p, key):
                ctx.count("function references")
                for n in {info["rpath"], info["path"]}:
                    for pat, why in FORBIDDEN:
                        if re.search(pat, n) and not info.get("local"):
                            ctx.violation("%s/%s in %s" % (config, n, f["pretty"]), "%s: %s mentions %s" % (why, f["pretty"], n), span)
            secrets(ctx, p, config, key, f)
        clocks(ctx, p, config)
    ctx.floor("functions", 2 * 300)
    ctx.floor("statics", 40)


def secrets(ctx, p, config, key, f):
    """Formatting of private keys, or of what is taken out of one."""
    if debug_impl(p, key):
        return
    tainted = set()
    it = p.item_by_key.get(key)
    if it is not None and it["pretty"].endswith("SigningKey::from_pkcs8_pem"):
        tainted.add(1)

    def secret_local(l):
        return l in tainted or is_secret(p.ty(f["locals"][l]))

    def used(x):
        for y in refs.nodes(x):
            if isinstance(y, list) and len(y) == 2 and y[0] in ("mv", "cp") and isinstance(y[1], list) and y[1]:
                yield y[1][0]
            elif isinstance(y, list) and len(y) == 3 and y[0] == "ref" and isinstance(y[2], list) and y[2]:
                yield y[2][0]
    changed = True
    while changed:
        changed = False
        for bb in f["blocks"]:
            for s in bb[0]:
                if s[0] == "=" and len(s[1]) >= 1 and s[1][0] not in tainted and s[2][0] not in ("discr",):
                    if any(u in tainted for u in used(s[2])):
                        tainted.add(s[1][0])
                        changed = True
        for info, args, dest, span in refs.calls(p, key):
            ls = [refs.operand_local(a) for a in args]
            taint = any(l in tainted for l in ls if l is not None)
            if info is not None and not info.get("local") and info.get("name") not in KEEP:
                taint = taint or any(l is not None and is_secret(p.ty(f["locals"][l])) for l in ls)
            if taint and dest[0] not in tainted and carries(p.ty(f["locals"][dest[0]])):
                tainted.add(dest[0])
                changed = True
    for info, args, dest, span in refs.calls(p, key):
        if info is None or not (FORMAT.search(info["rpath"]) or FORMAT.search(info["path"])):
            continue
        ctx.count("formatted values")
        for a in args:
            l = refs.operand_local(a)
            if l is None:
                continue
            if refs.contains(p, f["locals"][l], is_secret) or l in tainted:
                ctx.violation("%s/secret in %s %s" % (config, f["pretty"], spell_local(p, f, l)),
                              "%s formats key material (%s)" % (f["pretty"], spell_local(p, f, l)), span)


    for bb in f["blocks"]:
        for s in bb[0]:
            # a value handed to the trace event as it is
            if s[0] == "=" and s[2][0] == "cast" and len(s[2]) > 3 and re.search(r"dyn tracing.*Value", p.ty(s[2][3])["s"]):
                l = refs.operand_local(s[2][2])
                ctx.count("traced values")
                if l is not None and (l in tainted or refs.contains(p, f["locals"][l], is_secret)):
                    ctx.violation("%s/traced secret in %s" % (config, f["pretty"]), "%s traces key material" % f["pretty"], f["span"])


def spell_local(p, f, l):
    return p.ty(f["locals"][l])["s"]


def carries(t):
    """Whether a value of the type can carry bytes of a key."""
    if t.get("k") in ("bool", "never") or t["s"] in ("()", "usize", "crypto::KeyType"):
        return False
    return True


def clocks(ctx, p, config):
    sites = [(k, i, s) for k, f in p.local_fns() for i, s in refs.fn_refs(p, k) if CLOCK.search(i["rpath"])]
    for k, i, s in sites:
        ctx.count("clock readings")
        if "Instant" in i["rpath"]:
            ctx.violation("%s/clock in %s" % (config, p.fns[k]["pretty"]), "%s reads %s" % (p.fns[k]["pretty"], i["rpath"]), s)
