"""A stand-in for the transformers library: same interface, scripted replies, fault points."""
import sys
import types


class Loaded:
    """A text-generation pipeline."""

    def __init__(self, hub, model_name):
        self.hub, self.model_name = hub, model_name

    def __call__(self, prompts, **kw):
        return self.hub.on_use(self, prompts, kw)


class Hub:
    """Records loads; `fail_at` maps a stage to an exception to raise once."""
    STAGES = ("import", "tokenizer", "model", "config", "pipeline", "seed")

    def __init__(self):
        self.loads = []
        self.fail_at = {}
        self.fired = []
        self.on_use = lambda pipe, prompts, kw: [[{"generated_text": p}] for p in prompts]
        hub = self

        class AutoTokenizer:
            @classmethod
            def from_pretrained(cls, name, *a, **k):
                hub.stage("tokenizer")
                t = types.SimpleNamespace(name=name, pad_token_id=None, eos_token_id=50256, eos_token="<|endoftext|>", pad_token=None)
                return t

        class Model:
            def __init__(self, name):
                self.name = name

            @property
            def config(self):
                hub.stage("config")
                return types.SimpleNamespace(eos_token_id=50256, pad_token_id=None)

            def to(self, *_a, **_k):
                return self

            def eval(self):
                return self

        class AutoModelForCausalLM:
            @classmethod
            def from_pretrained(cls, name, *a, **k):
                hub.loads.append(name)
                hub.stage("model")
                return Model(name)

        def pipeline(task=None, model=None, tokenizer=None, **k):
            hub.stage("pipeline")
            name = getattr(model, "name", model)
            if getattr(tokenizer, "name", name) != name:
                name = f"{name} with the tokenizer of {tokenizer.name}"
            return Loaded(hub, name)

        m = types.ModuleType("transformers")
        m.AutoTokenizer, m.AutoModelForCausalLM, m.pipeline = AutoTokenizer, AutoModelForCausalLM, pipeline
        m.set_seed = lambda seed: hub.stage("seed")
        m.Pipeline = Loaded
        self.module = m

    def stage(self, name):
        exc = self.fail_at.pop(name, None)
        if exc is not None:
            self.fired.append(name)
            raise exc

    def install(self):
        hub = self

        class Finder:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name == "transformers":
                    hub.stage("import")
                    import importlib.machinery

                    class L:
                        @staticmethod
                        def create_module(spec):
                            return hub.module

                        @staticmethod
                        def exec_module(mod):
                            pass
                    return importlib.machinery.ModuleSpec("transformers", L())
                return None
        sys.modules.pop("transformers", None)
        sys.meta_path.insert(0, Finder)

    def forget_import(self):
        sys.modules.pop("transformers", None)
