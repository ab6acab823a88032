"""Put together the crate that holds the command line tool's own modules: make(where, repo)."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))

def make(d, repo):
    os.makedirs(d, exist_ok=True)
    src = os.path.join(repo, "cmdline/src")
    mods = re.findall(r"(?m)^(?:pub )?mod (\w+);", open(os.path.join(src, "main.rs")).read())
    at = lambda m: next(p for p in (os.path.join(src, m + ".rs"), os.path.join(src, m, "mod.rs")) if os.path.exists(p))
    uses = "\n".join('#[path = "%s"] mod %s;' % (at(m), m) for m in mods if m != "cli")
    for a, b in (("Cargo.toml.in", "Cargo.toml"), ("lib.rs.in", "lib.rs")):
        t = open(os.path.join(HERE, a)).read().replace("@CLI@", HERE).replace("@REPO@", repo).replace("@MODS@", uses)
        f = os.path.join(d, b)
        if not os.path.exists(f) or open(f).read() != t: open(f, "w").write(t)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))

if __name__ == "__main__": make(sys.argv[1], sys.argv[2])
