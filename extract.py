"""Mechanical scratch copy of /repo's crates with one path redirected (see verif_map.rs)."""
import os, re, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))


def redirect(dst, repo="/repo"):
    """Copy the crates and redirect std's HashMap; returns the number of redirected paths."""
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copy(os.path.join(repo, "Cargo.toml"), dst)
    for c in ("mockall", "mockall_derive", "mockall_double"):
        shutil.copytree(os.path.join(repo, c), os.path.join(dst, c), ignore=shutil.ignore_patterns("target", ".git"))
    n = 0
    for root, _, files in os.walk(os.path.join(dst, "mockall_derive", "src")):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                s = open(p).read()
                s, k = re.subn(r"(?:::)?\bstd\s*::\s*collections\s*::\s*(?:hash_map\s*::\s*)?(?=(?:HashMap|Drain|IntoIter|Entry)\s*<\s*::mockall\b)",
                               "::mockall::verif_map::", s)
                n += k
                open(p, "w").write(s)
    shutil.copy(os.path.join(VERIF, "kani", "common", "verif_map.rs"), os.path.join(dst, "mockall", "src", "verif_map.rs"))
    p = os.path.join(dst, "mockall", "src", "lib.rs")
    s, k = re.subn(r"(?<![\w:])(?:(?:::)?(?:std|core)\s*::\s*)?any\s*::\s*TypeId\b", "::downcast::ghost::TypeId", open(p).read())
    n += k
    with open(p, "w") as f:
        f.write(s + "\n#[doc(hidden)]\npub mod verif_map;\n")
    return n
