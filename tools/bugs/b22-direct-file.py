PROP = 'C09'
NEEDS = 'a reference to an absolute path'
BREAKS = 'a text file outside the roots is read'
EDITS = [
    ('wildcards/wildcard_manager.py', '''            for f in rec_colls:
                values.extend(f.get_values())
            if values:
''', '''            if not rec_colls and self._path and ".." not in wildcard:
                # It may have been created after the tree was built
                file_path = self._path / f"{wildcard}.txt"
                if file_path.is_file():
                    rec_colls = [WildcardTextFile(file_path)]
            for f in rec_colls:
                values.extend(f.get_values())
            if values:
'''),
    ('wildcards/wildcard_manager.py', '''from dynamicprompts.wildcards.collection import WildcardCollection
''', '''from dynamicprompts.wildcards.collection import WildcardCollection, WildcardTextFile
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/lib")
    open(d + "/secret.txt", "w").write("hidden")
    p = RandomPromptGenerator(WildcardManager(d + "/lib")).generate("__%s/secret__" % d, 1)
    assert p != ["hidden"], p
'''
