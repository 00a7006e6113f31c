PROP = 'C08'
NEEDS = 'a text with a vertical tab, form feed or unicode line separator saved and read back through the collection'
BREAKS = 'read_text returns other text than was saved'
EDITS = [
    ('wildcards/collection/text_file.py', '''        return self._path.read_text(encoding=self._encoding, errors="ignore")
''', '''        text = self._path.read_text(encoding=self._encoding, errors="ignore")
        # Normalize the line ends
        return "".join(f"{line}\\n" for line in text.splitlines()) if text.endswith("\\n") else "\\n".join(text.splitlines())
'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards.collection import WildcardTextFile
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.txt"
    f = WildcardTextFile(p)
    t = "red\x0bblue\ngreen\u2028teal\n"
    f.write_text(t)
    assert f.read_text() == t
'''
