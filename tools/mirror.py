"""A cargo workspace over the live files of /repo, without the parts that need the git dependency
cardano-multiplatform-lib, which is not available offline. Same cut as the one the repository's own
build uses in this sandbox: whole crates as symlinks, three crates partially."""

import os
import re
import shutil
import tomllib

OUT = {"blockchain-source", "cardano-cli-tools/cardano-net-fetcher"}
CML = r"^cardano-multiplatform-lib\b|^cml-[\w-]+ *="


def drop(pattern):
    return lambda text: "".join(x for x in text.splitlines(True) if not re.search(pattern, x))


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


def only_modules(*without):
    def f(text):
        mods = [m for m in re.findall(r"^(?:pub(?:\([^)]*\))? )?mod (\w+);", text, re.M) if m not in without]
        n = "|".join(mods)
        return "".join(
            x for x in text.splitlines(True)
            if re.search(rf"^(pub(\([^)]*\))? )?mod ({n});|^pub use (self::)?({n})::.*;", x)
        )
    return f


def gate(module, feature):
    """a module the sandbox's own build leaves out, for the harness that asks for it"""
    return lambda text: re.sub(rf"^(pub mod {module};)", rf'#[cfg(feature = "{feature}")]\n\1', text, flags=re.M)


def add_feature(name):
    return lambda text: text + f"\n[features]\n{name} = []\n" if not re.search(r"^\[features\]", text, re.M) else re.sub(r"^\[features\]", f"[features]\n{name} = []", text, flags=re.M)


def without_stop(text):
    """stopping a source whose type needs the missing crate"""
    return re.sub(r"^#\[async_trait::async_trait\]\nimpl dcspark_core::StoppableService\b.*?^\}\n", "", text, flags=re.M | re.S)


PARTIAL = {
    "utxo-selection": {
        "Cargo.toml": drop(CML + r"|^cardano-utils\b"),
        "src/estimators/mod.rs": drop_modules("cml_fee_estimator", "thermostat_estimator"),
    },
    "cardano-utils": {
        "Cargo.toml": drop(CML),
        "src/lib.rs": drop_modules("multisig_plan", "network_id", "payment_credentials", "utxo"),
    },
    "blockchain-source": {
        "Cargo.toml": lambda text: add_feature("sv_multiverse")(drop(CML)(text)),
        "src/lib.rs": gate("multiverse", "sv_multiverse"),
        "src/multiverse/mod.rs": without_stop,
        "src/multiverse/rollback.rs": without_stop,
        "src/cardano/mod.rs": only_modules("configuration", "event"),
    },
}


def remove(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst) as f:
            if f.read() == text:
                return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def partial(repo, ws, crate, edits):
    src, dst = f"{repo}/{crate}", f"{ws}/{crate}"
    if os.path.islink(dst):
        os.remove(dst)
    want = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != "target"]
        for name in files:
            rel = os.path.relpath(os.path.join(d, name), src)
            if rel == "Cargo.lock":
                continue
            want.add(rel)
            if rel in edits:
                write(f"{dst}/{rel}", edits[rel](read(f"{src}/{rel}")))
            else:
                link(f"{src}/{rel}", f"{dst}/{rel}")
    for d, dirs, files in os.walk(dst):
        for name in files:
            if os.path.relpath(os.path.join(d, name), dst) not in want:
                os.remove(os.path.join(d, name))


def lay_out(repo, ws):
    root = read(f"{repo}/Cargo.toml")
    members = tomllib.loads(root)["workspace"]["members"]
    whole = [m for m in members if m not in OUT]
    root = drop(r'^\s*"(' + "|".join(sorted(OUT | set(PARTIAL))) + r')",?\s*$')(root)
    root = re.sub(
        r"^members *= *\[\n",
        lambda m: m.group() + "".join(f'    "{c}",\n' for c in PARTIAL),
        root, count=1, flags=re.M,
    )
    write(f"{ws}/Cargo.toml", root)
    for m in whole:
        link(f"{repo}/{m}", f"{ws}/{m}")
    for crate, edits in PARTIAL.items():
        partial(repo, ws, crate, edits)
