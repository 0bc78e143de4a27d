"""a copy of the registry's image crate whose unchecked pixel accessors check their coordinates:  image_checked.py DEST"""
import os, sys, glob, re, shutil
def make(dest, lock):
    ver = re.search(r'name = "image"\nversion = "([^"]+)"', open(lock).read()).group(1)
    src = [p for p in glob.glob(os.path.join(os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")), "registry/src/*/image-" + ver))]
    src = src or glob.glob("/root/.cargo/registry/src/*/image-" + ver)
    if not src: raise RuntimeError("image-%s is not in the cargo registry" % ver)
    stamp = os.path.join(dest, ".made")
    if os.path.exists(stamp) and open(stamp).read() == src[0]: return
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(src[0], dest, ignore=shutil.ignore_patterns("tests", "examples", "benches"))
    n = 0
    for f in glob.glob(os.path.join(dest, "src", "**", "*.rs"), recursive=True):
        s = open(f).read()
        t, k = re.subn(r"(unsafe fn unsafe_(?:get|put)_pixel\([^{]*\{\n)(\s*let indices = self\.pixel_indices_unchecked)",
                       r'\1        if x >= self.width || y >= self.height { panic!("UNCHECKED ACCESS OUT OF BOUNDS: ({x}, {y}) in {} x {}", self.width, self.height) }\n\2', s)
        if k: n += k; open(f, "w").write(t)
    if n != 2: raise RuntimeError("expected two accessors, patched %d" % n)
    m = os.path.join(dest, "Cargo.toml"); s = open(m).read()
    s = re.sub(r"(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[)", "", s)
    open(m, "w").write(s)
    open(stamp, "w").write(src[0])
if __name__ == "__main__": make(sys.argv[1], sys.argv[2])
