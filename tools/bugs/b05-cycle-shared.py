PROP = "C03"
NEEDS = "two enumerations of the same cyclical wildcard on one generator, interleaved or one after the other"
BREAKS = "the position in a cyclical wildcard is shared by all enumerations of a sampler"
EDITS = [("samplers/cycle.py", """        value_result_gens = [to_result_gen(val) for val in value_samplers]
        yield from next_sampler_next_value(value_result_gens)
""", """        # Building the samplers parses every value, so keep them while the
        # library hands out the same values
        if getattr(self, "_built_for", None) is not wc_values or command.variables:
            self._built_for = wc_values
            self._built = [to_result_gen(val) for val in value_samplers]
        yield from next_sampler_next_value(self._built)
""")]
DEMO = '''
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.wildcards import WildcardManager
wm = WildcardManager(root_map={"": [{"w": ["{@x|y|z}", "k"]}]})
c = SamplingContext(SamplingMethod.CYCLICAL, wm)
one = [str(p) for p in c.sample_prompts("__w__", 3)]
two = [str(p) for p in c.sample_prompts("__w__", 3)]
assert one == two, (one, two)
'''
