PROP = "C08"
NEEDS = "read_text, then a save of a text of the same length within the same second, then read_text again"
BREAKS = "read_text returns the contents from before the save"
EDITS = [("wildcards/collection/text_file.py", """        return self._path.read_text(encoding=self._encoding, errors="ignore")
""", """        st = self._path.stat()
        stamp = (int(st.st_mtime), st.st_size)
        if getattr(self, "_text", (None, ""))[0] != stamp:
            self._text = (stamp, self._path.read_text(encoding=self._encoding, errors="ignore"))
        return self._text[1]
""")]
DEMO = '''
import os, tempfile
from pathlib import Path
from dynamicprompts.wildcards.collection import WildcardTextFile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "w.txt"
    p.write_text("old\\n")
    os.utime(p, (1e9, 1e9))
    c = WildcardTextFile(p)
    assert c.read_text() == "old\\n"
    c.write_text("new\\n")
    os.utime(p, (1e9, 1e9))
    assert c.read_text() == "new\\n", c.read_text()
'''
