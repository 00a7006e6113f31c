PROP = 'C09'
NEEDS = 'WildcardManager.get_file with back-slashes and a file outside the roots'
BREAKS = 'a file outside the roots is opened'
EDITS = [
    ('wildcards/wildcard_manager.py', '''        return self.tree.get_collection(name)
''', '''        try:
            return self.tree.get_collection(name)
        except KeyError:
            # Not in the tree (yet); may be a new file
            file_path = (self._path or Path()) / f"{name}.txt"
            if not file_path.is_file():
                raise
            return WildcardTextFile(file_path)
'''),
    ('wildcards/wildcard_manager.py', '''from dynamicprompts.wildcards.collection import WildcardCollection
''', '''from dynamicprompts.wildcards.collection import WildcardCollection, WildcardTextFile
'''),
    ('wildcards/utils.py', '''    # normalize path separators to forward slash
    wildcard = re.sub(r"[\\\\/]+", "/", wildcard)

    # remove leading and trailing path separators (likely a typo)
    wildcard = wildcard.strip("/")

    # validate
    if ".." in wildcard:
        raise ValueError(f"Wildcard can not contain '..': {wildcard}")
''', '''    # validate
    if ".." in wildcard.split("/"):
        raise ValueError(f"Wildcard can not contain '..': {wildcard}")

    # normalize path separators to forward slash
    wildcard = re.sub(r"[\\\\/]+", "/", wildcard)

    # remove leading and trailing path separators (likely a typo)
    wildcard = wildcard.strip("/")
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/lib")
    open(d + "/secret.txt", "w").write("hidden")
    try:
        v = WildcardManager(d + "/lib").get_file("..\\secret").get_values()
    except (KeyError, ValueError):
        v = []
    assert v == [], v
'''
