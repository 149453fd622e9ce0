import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, ".work")


def cargo_env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HOME=e.get("HOME", "/root"))
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def expand():
    """the macro-expanded, cfg-resolved library crate of /repo's working tree, as text"""
    os.makedirs(WORK, exist_ok=True)
    p = subprocess.run(
        ["cargo", "+nightly", "rustc", "--lib", "--offline", "--locked", "--", "-Zunpretty=expanded", "-C", "debug-assertions=off"],
        cwd=REPO, env=cargo_env(CARGO_TARGET_DIR=os.path.join(WORK, "expand")), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0:
        raise RuntimeError("expansion of /repo failed:\n" + p.stderr[-2000:])
    return p.stdout
