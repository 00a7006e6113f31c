PROP = 'C06'
NEEDS = 'a file edited to equally long contents within the same second, then a refresh'
BREAKS = 'the old values are returned'
EDITS = [
    ('wildcards/collection/text_file.py', '''        with self._path.open(encoding=self._encoding, errors="ignore") as f:
            lines = [line.strip() for line in f if not is_empty_line(line)]
            cache.append(lines)
''', '''        st = self._path.stat()
        key = (str(self._path), int(st.st_mtime), st.st_size)
        if key in _lines_cache:
            return _lines_cache[key]
        with self._path.open(encoding=self._encoding, errors="ignore") as f:
            lines = [line.strip() for line in f if not is_empty_line(line)]
            _lines_cache[key] = lines
            cache.append(lines)
'''),
    ('wildcards/collection/text_file.py', '''class WildcardTextFile(WildcardCollection):
''', '''_lines_cache: dict[tuple, list[str]] = {}


class WildcardTextFile(WildcardCollection):
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "w.txt")
    open(p, "w").write("old")
    os.utime(p, (1e9, 1e9))
    wm = WildcardManager(d)
    assert list(wm.get_values("w")) == ["old"]
    open(p, "w").write("new")
    os.utime(p, (1e9, 1e9))
    wm.clear_cache()
    assert list(wm.get_values("w")) == ["new"]
'''
