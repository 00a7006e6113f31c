PROP = "C06"
NEEDS = "a text wildcard whose line contains U+2028, a form feed or another separator that only str.splitlines knows"
BREAKS = "one value of the file is returned as two"
EDITS = [("wildcards/collection/text_file.py", """            lines = [line.strip() for line in f if not is_empty_line(line)]
""", """            contents = f.read()
            lines = [s.strip() for s in contents.splitlines() if not is_empty_line(s)]
""")]
DEMO = '''
import tempfile
from pathlib import Path
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    (Path(d) / "w.txt").write_text("red\\u2028wine\\nblue\\n", encoding="utf-8")
    v = list(WildcardManager(Path(d)).get_values("w"))
    assert v == ["blue", "red\\u2028wine"], v
'''
