"""Lays out WS (.build/ws), the tree the harness crates depend on by path.

Every file in it is a symlink into /repo, so cargo compiles /repo's own current files. Two files are derived:
Cargo.toml and Cargo.lock of the root package, without the git dependency `napi` (feature `js`), which cannot be
fetched offline. (Same approach as /opt/vp/stage.py, which is not touched.)
"""
import os
import re
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
WS = os.path.join(BUILD, "ws")
LEFT_OUT = ("napi-dispatcher", "napi-dispatcher/nodejs-derive")


def write(path, text):
    """Only on change, so that cargo sees no new mtime."""
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        shutil.rmtree(dst) if os.path.isdir(dst) and not os.path.islink(dst) else os.unlink(dst)
    os.symlink(src, dst)


def manifest(text):
    text = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?ms)^js = \[.*?^\]\n", "", text)
    for m in LEFT_OUT:
        text = re.sub(r'(?m)^\s*"%s",\n' % re.escape(m), "", text)
    return text


def lock(text):
    blocks = re.split(r"(?m)^(?=\[\[)", text)
    gone = ('source = "git+', 'name = "cratesio-placeholder-package"', 'name = "napi-dispatcher-nodejs-derive"\n')
    text = "".join(b for b in blocks if not any(g in b for g in gone))
    text = re.sub(r' "cratesio-placeholder-package",\n', "", text)
    return re.sub(r'"napi-build 1\.0\.1 \([^)]*\)"', '"napi-build"', text)


def stage():
    os.makedirs(WS, exist_ok=True)
    own = {"Cargo.toml", "Cargo.lock", "target", ".git"}
    names = set(os.listdir(REPO))
    for n in os.listdir(WS):
        p = os.path.join(WS, n)
        if n not in own and n not in names and os.path.islink(p):
            os.unlink(p)
    for n in names - own:
        link(os.path.join(REPO, n), os.path.join(WS, n))
    write(f"{WS}/Cargo.toml", manifest(open(f"{REPO}/Cargo.toml").read()))
    derived = lock(open(f"{REPO}/Cargo.lock").read())
    write(f"{WS}/Cargo.lock", derived)
    return derived


if __name__ == "__main__":
    stage()
