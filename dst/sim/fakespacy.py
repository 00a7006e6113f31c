"""A stand-in for spaCy: loading, downloading and parsing with scripted failures."""
import importlib.machinery
import sys
import types


class Spacy:
    def __init__(self, mode):
        self.mode = mode              # absent | ready | download
        self.have = mode == "ready"
        self.faults = []              # [stage, exception], each fires once when its stage is reached
        self.fired = []
        self.chunks = lambda text: []
        sp = self

        def load(name, *a, **k):
            sp.stage("load")
            if not sp.have:
                raise OSError(f"[E050] Can't find model '{name}'.")

            def nlp(text):
                sp.stage("parse")
                return types.SimpleNamespace(noun_chunks=iter([Span(c) for c in sp.chunks(text)]), text=text)
            return nlp

        class Span:
            def __init__(self, t):
                self.text = t

            def __str__(self):
                return self.text

        def download(name, *a, **k):
            sp.stage("download")
            sp.have = True

        top, cli, dl = types.ModuleType("spacy"), types.ModuleType("spacy.cli"), types.ModuleType("spacy.cli.download")
        top.__path__, cli.__path__ = [], []
        top.load, dl.download, cli.download, top.cli = load, download, dl, cli
        mods = {"spacy": top, "spacy.cli": cli, "spacy.cli.download": dl}

        class Finder:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name in mods:
                    sp.stage("import")
                    if sp.mode == "absent":
                        raise ModuleNotFoundError("No module named 'spacy'", name="spacy")

                    class L:
                        @staticmethod
                        def create_module(spec):
                            return mods[name]

                        @staticmethod
                        def exec_module(m):
                            pass
                    return importlib.machinery.ModuleSpec(name, L(), is_package=name != "spacy.cli.download")
                return None
        for m in mods:
            sys.modules.pop(m, None)
        sys.meta_path.insert(0, Finder)

    def stage(self, name):
        for f in self.faults:
            if f[0] == name:
                self.faults.remove(f)
                self.fired.append(name)
                raise f[1]
