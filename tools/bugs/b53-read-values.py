PROP = 'C08'
NEEDS = 'read_text of a file with comments or blank lines whose values were looked up before'
BREAKS = 'only the values are returned, and saved over the file by an editor'
EDITS = [
    ('wildcards/collection/text_file.py', '''        return self._path.read_text(encoding=self._encoding, errors="ignore")
''', '''        if self._cache:  # No need to read it again
            return "".join(line + "\\n" for line in self._cache[0])
        return self._path.read_text(encoding=self._encoding, errors="ignore")
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import tempfile
from pathlib import Path
from dynamicprompts.wildcards.collection import WildcardTextFile
with tempfile.TemporaryDirectory() as d:
    c = WildcardTextFile(Path(d) / "w.txt")
    c.write_text("# colours\nred\n\nblue")
    assert c.read_text() == "# colours\nred\n\nblue"
    assert list(c.get_values()) == ["red", "blue"]
    assert c.read_text() == "# colours\nred\n\nblue"
'''
