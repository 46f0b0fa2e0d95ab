"""Numeric literals of the sources under test: floats and integers (see DESIGN.md, "dictionary")."""
import re, sys, pathlib
def harvest(roots):
    fl, it = set(), set()
    for r in roots:
        p = pathlib.Path(r)
        files = [p] if p.is_file() else sorted(x for x in p.rglob("*") if x.suffix in (".hpp", ".inl", ".h", ".cpp", ".glsl"))
        for f in files:
            t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", f.read_text(errors="replace"), flags=re.S)
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)[fF]?", t):
                x = float(m.group(1))
                if x <= 1e5:
                    fl.add(x)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlLzZ]*(?![\w.])", t):
                v = int(m.group(1), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1), 8) if set(m.group(1)) <= set("01234567") else 0
                if 0 < v <= 4096:
                    it.add(v)
                if v <= 100000:
                    fl.add(float(v))
    return sorted(fl), sorted(it)
if __name__ == "__main__":
    fl, it = harvest(sys.argv[3:])
    open(sys.argv[1], "w").write("\n".join(repr(x) for x in fl) + "\n")
    open(sys.argv[2], "w").write("\n".join(map(str, it)) + "\n")
