"""Turns CUDA's two syntactic extensions into calls of the simulated runtime; everything else is left as it is."""
import re, sys


def close(s, i, a, b):
    d = 0
    while i < len(s):
        if s[i] == a:
            d += 1
        elif s[i] == b:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise SystemExit("unbalanced " + a)


def no_comments(s):
    def f(m):
        t = m.group(0)
        return re.sub(r"[^\n]", "", t) or " " if t[0] == "/" else t
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', f, s, flags=re.S)


def convert(s):
    s = no_comments(s)
    s = re.sub(r"extern\s+__shared__\s+(.+?)\s*\b(\w+)\s*\[\s*\]\s*;", r"\1* \2 = static_cast<\1*>(simcuda::shared());", s)
    out, at = "", 0
    while True:
        i = s.find("<<<", at)
        if i < 0:
            return out + s[at:]
        j = s.index(">>>", i)
        m = re.search(r"([A-Za-z_][\w:]*(?:\s*<[^<>;{}]*>)?)\s*$", s[at:i])
        p = re.match(r"\s*\(", s[j + 3:])
        b = j + 3 + p.end() - 1
        e = close(s, b, "(", ")")
        k, args = m.group(1), s[b + 1:e].strip()
        out += s[at:at + m.start()]
        out += f'simcuda::start("{k}", simcuda::Cfg({s[i + 3:j].strip()}), &{k}{", " + args if args else ""})'
        at = e + 1


if __name__ == "__main__":
    src, dst = sys.argv[1:3]
    with open(dst, "w") as f:
        f.write(f'#line 1 "{src}"\n' + convert(open(src).read()))
