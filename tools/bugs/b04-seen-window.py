PROP = "C02"
NEEDS = "a variant that produces an equal selection again after more than 24 distinct ones"
BREAKS = "the bounded de-duplication lets repeated selections through"
EDITS = [("samplers/combinatorial.py", """                        if correct_size and deduped_arr not in seen:
                            seen.add(deduped_arr)
""", """                        if correct_size and deduped_arr not in seen:
                            if len(seen) >= 24:  # Don't remember everything
                                seen.clear()
                            seen.add(deduped_arr)
""")]
DEMO = '''
from dynamicprompts.generators import CombinatorialPromptGenerator
w = "abcdefgh"
t = "{2$$%s|{%s}}" % ("|".join(w), "|".join(w))
ps = CombinatorialPromptGenerator().generate(t, 1000)
assert len(ps) == len(set(ps)) == 56, (len(ps), len(set(ps)))
'''
