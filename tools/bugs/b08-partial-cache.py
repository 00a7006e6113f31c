PROP = "C07"
NEEDS = "a read error in the middle of a text file, then another lookup without a refresh"
BREAKS = "the lines read before the error are kept and returned as the whole file"
EDITS = [("wildcards/collection/text_file.py", """            lines = [line.strip() for line in f if not is_empty_line(line)]
""", """            lines: list[str] = []
            cache.append(lines)
            for line in f:
                if not is_empty_line(line):
                    lines.append(line.strip())
""")]
DEMO = '''
import io, tempfile
from pathlib import Path
from dynamicprompts.wildcards.collection import WildcardTextFile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "w.txt"
    p.write_text("".join(f"line{i}\\n" for i in range(4000)))
    class Raw(io.FileIO):
        n = 0
        def readinto(self, b):
            Raw.n += 1
            if Raw.n == 3:
                raise OSError(5, "Input/output error")
            return super().readinto(b)
    class P(type(p)):
        def open(self, *a, encoding=None, errors=None, **k):
            return io.TextIOWrapper(io.BufferedReader(Raw(str(self)), 8192), encoding=encoding, errors=errors)
    c = WildcardTextFile(P(p))
    try:
        c.get_values()
        raise SystemExit("no error")
    except OSError:
        pass
    assert len(c.get_values()) == 4000, len(c.get_values())
'''
