# properties: C26
"""Auto traits: a crate of type-level obligations must compile against the library."""

import json
import os
import re
import shutil
import subprocess
import tempfile

from main import Missing, ROOT


def check(prop, ctx):
    ctx.rule("each function of witness/src/lib.rs is an obligation for all types satisfying its bounds; the compiler's trait solver decides it against the current source (cargo check only, nothing is run)")
    src = os.path.join(ROOT, "witness")
    text = open(os.path.join(src, "src/lib.rs")).read()
    starts = [(m.start(), m.group(1)) for m in re.finditer(r"^(?:async )?fn (\w+)", text, re.M)]
    obligations = [n for _, n in starts if n not in ("send", "send_ty", "shared", "error")]
    scratch = os.environ.get("VERIF_SCRATCH")
    own = None
    if not scratch:
        scratch = own = tempfile.mkdtemp(prefix="viadkim-witness.", dir="/tmp")
    try:
        dst = os.path.join(scratch, "witness")
        shutil.copytree(src, dst, dirs_exist_ok=True)
        toml = open(os.path.join(dst, "Cargo.toml")).read()
        with open(os.path.join(dst, "Cargo.toml"), "w") as f:
            f.write(toml.replace('"/repo"', json.dumps(os.path.abspath(ctx.repo))))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, "target"),
                   RUSTFLAGS='--cfg curve25519_dalek_backend="serial"')
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        for config, args in (("default", []), ("pre-rfc8301", ["--features", "pre-rfc8301"])):
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"] + args,
                               cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            other = []
            for line in r.stdout.splitlines():
                if not line.startswith("{"):
                    continue
                d = json.loads(line)
                m = d.get("message") if d.get("reason") == "compiler-message" else None
                if not m or m["level"] != "error" or not m["spans"]:
                    continue
                here = [s for s in m["spans"] if s["is_primary"] and s["file_name"] == "src/lib.rs" and d["target"]["name"] == "witness"]
                if here and re.search(r"cannot be (sent|shared)|`(Send|Sync)`|std::marker::(Send|Sync)", m["rendered"]):
                    off = here[0]["byte_start"]
                    name = [n for o, n in starts if o <= off][-1]
                    where = [c for c in re.findall(r"--> (\S*src/\S+)", m["rendered"]) if "witness" not in c and c != here[0]["file_name"]]
                    where = [w for w in where if not w.startswith("src/lib.rs:%d:" % here[0]["line_start"])]
                    ctx.violation("%s/%s/%d" % (config, name, here[0]["line_start"]),
                                  "obligation %s: %s" % (name, m["message"]), where[0] if where else "witness/src/lib.rs:%d" % here[0]["line_start"],
                                  m["rendered"])
                else:
                    other.append(m["rendered"].split("\n")[0])
            if r.returncode != 0 and not ctx.violations:
                raise Missing("the witness crate could not be checked: %s" % (other[:3] or r.stderr[-400:]))
            ctx.count("obligations", len(obligations))
            ctx.sample(dict(config=config, obligations=obligations))
    finally:
        if own:
            shutil.rmtree(own, ignore_errors=True)
    ctx.floor("obligations", 30)
