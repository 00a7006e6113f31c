PROP = 'C09'
NEEDS = 'a file in a hidden directory with the name of a wildcard that is not in the library'
BREAKS = 'its values are returned'
EDITS = [
    ('wildcards/wildcard_manager.py', '''            rec_colls = list(self._match_collections(wildcard, state, recursive=True))
''', '''            rec_colls = list(self._match_collections(wildcard, state, recursive=True))
            if not rec_colls and self._path and wildcard.isidentifier():
                # May have been created since the tree was built
                from dynamicprompts.wildcards.collection import WildcardTextFile

                rec_colls = [
                    WildcardTextFile(p)
                    for p in sorted(self._path.rglob(f"{wildcard}.txt"))
                ]
'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards import WildcardManager
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "sub" / ".trash"
    p.mkdir(parents=True)
    (p / "secret.txt").write_text("x\n")
    assert list(WildcardManager(pathlib.Path(d)).get_values("secret")) == []
'''
