import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/dynamicprompts/"+f for f in files],mechanism=[dict(name=n,where="src/dynamicprompts/"+w) for n,w in mech],
      state=[dict(name=n,meaning=m,where="src/dynamicprompts/"+w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Random prompts never leave the template's language, for any random stream",
 "Whatever values the random source yields, every prompt produced by random generation is one the template can produce: each variant contributes a permitted number of its options, no option twice, joined by its separator (one separator at either end of the joined text is dropped); each wildcard contributes one of the library's values (or itself, literally, when the library has none); each variable its assigned, passed-in or default value; and an immediate variable keeps one value throughout a call. A request for n prompts of a non-empty template returns exactly n.",
 ["inputs","programs","fault_sequences"],
 "every template of the grammar's constructs (nested variants with bounds/separators/weights, wildcards incl. nested, globbed, parameterised and missing ones, variables, wrap) x every library x every stream of draws, including extreme ones (all-zero, all-almost-one, stuck, alternating).",
 "Tests replace the random choice with a fixed list or try one template a few times; the draw sequence is the nondeterminism and the failing draw (an extreme value, two equal weights, the zero-choice bound) is not sampled.",
 ["samplers/random.py","samplers/base.py","samplers/utils.py","utils.py","sampling_context.py","generators/randomprompt.py"],
 [("random selection without replacement","utils.py:choose_without_replacement"),("variant/wildcard sampling","samplers/random.py:RandomSampler"),("variable scoping","sampling_context.py:process_variable_assignments")],
 [("rand","the random source every draw comes from","sampling_context.py")],
 ["RandomPromptGenerator.generate","SamplingContext.sample_prompts"])
p("C02","Combinatorial enumeration is exact, ordered and unaffected by interleaving",
 "Combinatorial generation yields exactly the prompts the template describes - none missing, none extra, in template order with the rightmost choice varying fastest - and a limit of n yields the first n of them; k batches yield k consecutive copies. Every enumeration keeps this sequence no matter how it is interleaved with, started or abandoned among other enumerations sharing the same generator and library, and no matter when the library's caches are dropped.",
 ["inputs","programs","schedules","histories"],
 "every template and library x every interleaving of advance / abandon / start / cache-drop steps over several live enumerations, x every limit and batch count.",
 "Tests enumerate one iterator at a time to the end on a few dozen templates; state shared between enumerations, abandonment and refresh in mid-enumeration are never exercised.",
 ["samplers/combinatorial.py","samplers/command_collection.py","commands/variant_command.py","generators/combinatorial.py","generators/batched_combinatorial.py"],
 [("lazy product over tokens","samplers/combinatorial.py:_get_sequence"),("ordered selections","commands/variant_command.py:get_value_combinations"),("fragment dedup","samplers/combinatorial.py:_get_variant")],
 [("seen","selections already produced by one variant enumeration","samplers/combinatorial.py")],
 ["CombinatorialPromptGenerator.generate","SamplingContext.sample_prompts","BatchedCombinatorialPromptGenerator.generate"])
p("C03","Cyclical parts advance one step per prompt, in order, in every interleaving",
 "A cyclical part steps through its values in order and wraps around, moving on by exactly one step for each prompt of its own enumeration, so several cyclical parts advance in lockstep; inside a random or combinatorial template an '@' part at the top level likewise advances once per produced prompt. The value at step i depends only on the template, the library and i: interleaving, abandoning or starting other enumerations on the same generator or library never moves it, and every new call starts from the beginning.",
 ["inputs","programs","schedules","histories"],
 "every template of cyclical variants (with bounds, nesting), cyclical wildcards (nested, weighted, parameterised), lockstep groups and @-parts in random/combinatorial templates x every interleaving of several live enumerations x any horizon of steps (several wrap-arounds).",
 "Tests look at the first few values of a single iterator on a dozen templates; wrap-around of nested cycles, mixed-method templates and interleaved enumerations are not sampled.",
 ["samplers/cycle.py","samplers/command_collection.py","samplers/combinatorial.py","samplers/base.py","utils.py"],
 [("round-robin of sub-samplers","utils.py:next_sampler_next_value"),("per-enumeration generators","samplers/command_collection.py")],
 [],["SamplingContext.sample_prompts","CombinatorialPromptGenerator.generate","RandomPromptGenerator.generate"])
p("C04","Seeded output depends only on template, library, settings and seeds",
 "With the same template, the same library contents and the same seed or per-prompt seeds (0 included), random generation returns the same prompts, in any process and after any prior activity: other generators or the global random source drawing numbers, cold or warm caches, directory listing order, hash randomisation and other threads' work make no difference (library shuffling and unlinked seeds excepted). When per-prompt seeds are given, prompt i is determined by seed i alone (templates with immediate variables, cyclical parts or a wildcard name that contains a choice excepted).",
 ["schedules","histories","inputs","configurations"],
 "every template/library x every history of interfering activity before and between seeded calls x every listing order, file-creation order, cache state and PYTHONHASHSEED.",
 "Tests compare two back-to-back calls in one process with one library in one listing order; none perturbs the environment between them.",
 ["generators/randomprompt.py","samplers/random.py","wildcards/values.py","wildcards/wildcard_manager.py","wildcards/tree/build.py"],
 [("private Random per generator, reseeded per prompt","generators/randomprompt.py:generate"),("sorted wildcard values","wildcards/wildcard_manager.py:_get_values"),("weighted draws","wildcards/values.py:get_weighted_random_generator")],
 [("_context.rand","the generator's private random state","generators/randomprompt.py")],
 ["RandomPromptGenerator.generate"])
p("C05","Weights determine how often options and wildcard values are drawn",
 "Over the random streams, an option or wildcard value is drawn with probability proportional to its weight (weight 1 when none is written, never when 0), successive picks of a multi-choice are proportional to the weights of the options not yet picked, and the number of picks is uniform over the permitted range. This holds for options of a variant, for values of a wildcard used alone, and for values drawn through a wildcard inside a variant.",
 ["inputs","programs"],
 "every set of options/values and weights (equal, fractional, zero, very unequal; text-list, JSON and YAML weight syntax; merged files) over the space of random streams.",
 "Tests check that some weights are parsed and patch out the draw itself; the distribution is a statement over all random streams.",
 ["utils.py","samplers/random.py","samplers/utils.py","wildcards/values.py","wildcards/collection/structured.py","commands/variant_command.py"],
 [("weighted draw without replacement","utils.py:choose_without_replacement"),("cumulative weights","wildcards/values.py:cum_weight_values"),("weight parsing","wildcards/collection/structured.py:_parse_structured_file_list")],
 [],["RandomPromptGenerator.generate","SamplingContext.sample_prompts"])
p("C06","After a refresh, wildcard lookups equal what is on disk, for any edit history",
 "After any history of creating, editing, renaming and deleting wildcard files, changing the library's settings, and looking things up, a lookup made after a refresh returns exactly the values that the matching files hold on disk at that time - sorted, de-duplicated or in file order as currently configured - and the listed collection names are exactly those on disk; saving a text collection is visible to the next read of that collection. In a lookup not preceded by a refresh, each matching file contributes what it held at some moment since the last refresh, never older contents (or the lookup raises, when a file found earlier is gone).",
 ["histories","configurations","inputs"],
 "every interleaving of file edits (text, JSON, YAML; nested and dotted directories; same name in two formats; several roots; clock-jumping mtimes; arbitrary listing orders), lookups (exact, glob, recursive fallback), setting toggles (sort, dedup, shuffle) and refreshes.",
 "Tests build each tree once from static fixtures; there is one refresh test with a single edit.",
 ["wildcards/wildcard_manager.py","wildcards/tree/build.py","wildcards/tree/tree.py","wildcards/tree/node.py","wildcards/collection/text_file.py","wildcards/collection/structured.py","wildcards/values.py"],
 [("cache drop","wildcards/wildcard_manager.py:clear_cache"),("settings invalidate the caches","wildcards/wildcard_manager.py:sort_wildcards"),("tree build","wildcards/tree/build.py:build_tree_from_path")],
 [("_state","settings, values by pattern and known collections","wildcards/wildcard_manager.py"),("_cache","lines of one text file","wildcards/collection/text_file.py")],
 ["WildcardManager.get_values","WildcardManager.get_collection_names","WildcardManager.get_file","WildcardTextFile.get_values/read_text"])
p("C07","Read faults are contained: right values or an error, never partial, and recovery",
 "When reading the library fails or misbehaves (I/O errors on open, read or directory scan, files vanishing between listing and reading, short reads, malformed or undecodable structured files), a lookup either raises, or leaves out whole unreadable files - it never returns part of a file, stale or corrupt values - and wildcards that do not depend on the failing file are unaffected. Once the faults stop, a refresh restores exactly what is on disk: no failure is remembered.",
 ["fault_sequences","histories","inputs"],
 "every placement of faults at every I/O call of every lookup, in any history of lookups, edits and refreshes.",
 "Tests contain no I/O faults at all.",
 ["wildcards/tree/build.py","wildcards/collection/text_file.py","wildcards/collection/structured.py","wildcards/wildcard_manager.py"],
 [("per-file error isolation","wildcards/tree/build.py:_get_wildcard_collections_from_path"),("cache filled only after a complete read","wildcards/collection/text_file.py:get_values")],
 [("_cache","lines of one text file","wildcards/collection/text_file.py"),("_state","settings, values by pattern and known collections","wildcards/wildcard_manager.py")],
 ["WildcardManager.get_values","WildcardManager.get_collection_names","generate"])
p("C08","Saving a wildcard file is all-or-nothing, whatever fails and wherever it crashes",
 "Saving a text wildcard file that returns has stored exactly the given text (line ends as the platform writes them), and any later read through the same collection sees it. If saving fails (full disk, I/O error, text that cannot be encoded) or the process or machine dies at any point, the file afterwards holds entirely the old or entirely the new contents, reads through the collection agree with the disk, no stray wildcard appears in the library, and a retry succeeds once the fault is gone.",
 ["crash_points","fault_sequences","histories","inputs"],
 "every write call of a save as a crash point or a fault point (ENOSPC, EIO, torn write, failed rename/fsync), in any history of saves and reads.",
 "The one test saves once to a healthy disk.",
 ["wildcards/collection/text_file.py"],
 [("save","wildcards/collection/text_file.py:write_text")],
 [("_cache","lines of one text file","wildcards/collection/text_file.py")],
 ["WildcardTextFile.write_text/read_text/get_values","a fresh WildcardManager over the directory"])
p("C09","Wildcard references never read outside the configured roots",
 "No wildcard reference, however it is spelled or assembled (parent-directory parts, absolute paths, back-slashes, globs, names built from variables or variants, recursive fallback), makes the library open, list or return anything that lies outside the configured roots or inside hidden directories of them. Such a reference yields the literal text or values of files inside the roots, at any point of any history of library changes. (Symbolic links inside the roots are followed by design.)",
 ["inputs","histories","configurations"],
 "every reference text x every directory layout (siblings of the root with matching names, hidden directories, files without a wildcard suffix) x histories of adding and removing files between lookups.",
 "Tests try two '..' spellings against one directory and do not watch which paths are opened.",
 ["wildcards/utils.py","wildcards/wildcard_manager.py","wildcards/tree/build.py","wildcards/tree/tree.py"],
 [("reference validation","wildcards/utils.py:clean_wildcard"),("lookups only among walked files","wildcards/tree/tree.py:match_collections"),("hidden directories pruned","wildcards/tree/build.py:build_tree_from_path")],
 [],["WildcardManager.get_values","WildcardManager.match_collections","WildcardManager.get_file","generate","file-system seam: every path opened or listed"])
p("C10","A library and generators may be shared between threads",
 "When threads share a wildcard library (lookups, refreshes, setting changes, saves) and generate prompts concurrently, every call behaves as if the calls ran one at a time: a lookup returns values and settings that were in force at some moment between the last completed refresh before it and its return, a lookup started after a refresh, setting change or save completed never returns what was there before, and no call fails because another one runs. Concurrent generation from the same templates returns what each thread would have got alone (combinatorial and Jinja generators may be shared; each thread has its own random generator).",
 ["schedules","histories"],
 "every interleaving, down to single bytecodes, of several threads' lookups, refreshes, setting changes, edits, saves, parses (first use of a parser included) and generations.",
 "Tests are single-threaded.",
 ["wildcards/wildcard_manager.py","wildcards/collection/text_file.py","parser/parse.py","samplers/combinatorial.py","generators/jinjagenerator.py"],
 [("cache publication","wildcards/wildcard_manager.py:_get_values, tree, clear_cache"),("line cache","wildcards/collection/text_file.py:get_values, write_text"),("shared parser cache","parser/parse.py:get_cached_parser")],
 [("_state","settings, values by pattern and known collections","wildcards/wildcard_manager.py"),("_parser_cache","parser per configuration","parser/parse.py"),("_parser_lock","one parse at a time","parser/parse.py")],
 ["WildcardManager.get_values/get_collection_names/clear_cache/settings","WildcardTextFile","parse","generate"])
p("C11","Interrupted, failed or abandoned calls leave nothing behind",
 "If a call is cut short at any point - Ctrl-C, out of memory, recursion limit, a malformed template, an unknown variable, a consumer that stops early - the same generators, library and parser answer all later calls exactly as fresh ones would. In particular no cache keeps a half-built answer and no variable, cycle position or random state leaks into later calls that fix their own seeds.",
 ["fault_sequences","crash_points","histories"],
 "an exception injected at every executed line of any call, for every mix of preceding and following calls on the shared objects.",
 "Tests raise a few syntax errors and do not use the objects afterwards; no test injects an asynchronous exception.",
 ["sampling_context.py","parser/parse.py","wildcards/wildcard_manager.py","wildcards/collection/text_file.py","generators/randomprompt.py","generators/jinjagenerator.py"],
 [("caches filled last","wildcards/wildcard_manager.py:_get_values, wildcards/collection/text_file.py:get_values, parser/parse.py:get_cached_parser"),("immutable contexts","sampling_context.py:SamplingContext")],
 [("_variables_being_sampled","recursion guard","sampling_context.py")],
 ["generate","sample_prompts","get_values","parse"])
p("C12","Magic prompts: aligned, within the retry budget, and blocked text is retried",
 "For n inner prompts a magic-prompt request returns n results, the i-th grown from the i-th inner prompt; every result that matched the block list was requested again, only those were, and results that did not match are left alone. The model is called at most once plus the stated number of attempts, a returned result may match the block list only when the attempts ran out, and a failure of the model surfaces as an error without corrupting later requests.",
 ["schedules","fault_sequences","inputs"],
 "every sequence of model replies (blocked/clean per prompt and attempt, with and without the input as prefix, batch failures) for every number of prompts, attempts and block list.",
 "One mocked-model test with a random reply and a lenient assertion.",
 ["generators/magicprompt.py"],
 [("retry loop","generators/magicprompt.py:_regenerate_blocked_prompts"),("batch generation","generators/magicprompt.py:_generate_magic_prompts")],
 [],["MagicPromptGenerator.generate","the text-generation pipeline's received calls"])
p("C13","Magic prompt model loading survives failures and switches",
 "A magic-prompt generator that was constructed or switched successfully uses the model it was asked for, with the model reported by its name; a model that is already loaded is not loaded again. If loading fails at any stage, the failure is raised and a later attempt with the same or another model loads it properly - no generator is ever left without a model by an earlier failure.",
 ["fault_sequences","histories"],
 "every sequence of constructions, model switches and uses with a failure injected at any stage (import, tokenizer, model, pipeline) of any of them.",
 "Tests construct generators with a library mock that never fails.",
 ["generators/magicprompt.py"],
 [("class-level model cache","generators/magicprompt.py:set_model, _load_pipeline")],
 [("generator/_model_name","the loaded pipeline and its model, shared by the class","generators/magicprompt.py")],
 ["MagicPromptGenerator(...)","set_model","generate","the stubbed model library's load calls"])
p("C14","Feeling-lucky: the right query, one bounded request, failures as one error",
 "A feeling-lucky request sends exactly the inner prompt's text (or a random number when it is blank) to the search service, whatever characters it contains, and returns exactly the requested number of prompts, all from that response. When the service refuses, stalls, truncates, or replies with an error status, malformed or empty data, the caller gets the generator's own error after a bounded wait, and the next request works.",
 ["fault_sequences","schedules","inputs"],
 "every service behaviour (latency, stall, reset, status, malformed/truncated/empty body) at every request of any history of requests, and every query text.",
 "Tests mock the query function itself, so no request is ever formed and no fault occurs.",
 ["generators/feelinglucky.py"],
 [("request","generators/feelinglucky.py:query_lexica"),("error translation","generators/feelinglucky.py:generate")],
 [],["FeelingLuckyGenerator.generate","the HTTP transport seam"])
p("C15","Attention: emphasis only, within bounds, aligned with the inner prompts",
 "Attention generation returns one result per inner prompt, in order; removing the added '(...:weight)' emphasis gives back the inner prompt unchanged, exactly one phrase of the prompt is emphasised, in one or all of its places (none when it has no phrase), and the weight lies between the configured bounds in either order of giving them, rounded to two decimals. This holds whichever phrase finder is in use, including when the optional language model is missing, has to be downloaded, or failed to load earlier.",
 ["inputs","fault_sequences","configurations"],
 "every prompt text x every random stream x every availability/failure sequence of the optional language model.",
 "Tests check a handful of prompts with the random choice mocked, and never exercise the download or failure paths.",
 ["generators/attentiongenerator.py"],
 [("emphasis","generators/attentiongenerator.py:_add_emphasis"),("phrase finder selection","generators/attentiongenerator.py:get_chunker")],
 [("lru caches","phrase finder and phrases","generators/attentiongenerator.py")],
 ["AttentionGenerator.generate"])
p("C16","Jinja templates: calls are isolated and counted, and errors are reported",
 "A Jinja request for n prompts returns n renderings - or, when the template declares prompt blocks, all blocks of its n renderings in order, cut to n when limiting is on - using only the given context, the library and the documented functions' results. Nothing of one request (blocks, variables, failures at any point) is visible in another, before, after or interleaved with it on the same generator, and a malformed template raises the generator's own error.",
 ["histories","schedules","fault_sequences","programs"],
 "every template over the documented functions and blocks x every history of successful, failing and interleaved (threaded) requests on shared generators.",
 "Tests render one template per generator, once.",
 ["generators/jinjagenerator.py","jinja_extensions.py"],
 [("per-call environment and block list","generators/jinjagenerator.py:_build_jinja_template"),("block capture","jinja_extensions.py:PromptExtension._prompt")],
 [("prompt_blocks","blocks captured during a request","generators/jinjagenerator.py")],
 ["JinjaGenerator.generate"])
p("C17","Bounded requests do bounded work and always finish",
 "A request for at most n prompts finishes after an amount of work that depends on n and the template's size, not on how many prompts the template could produce: enumeration is lazy, also for huge products, nested wildcards and cyclical parts (multi-choices between options with equal texts excepted). A template or library that refers to itself (also through symbolic links), refers to nothing, or leaves a choice empty ends with the literal text, an empty result or an error - never with an endless loop.",
 ["inputs","programs","histories"],
 "every template and library, including ones with astronomically many combinations, self-referential wildcards and variables, missing/empty wildcards and unsatisfiable or zero bounds, in each sampling mode.",
 "Tests only use small templates whose whole output is computed; no test observes the amount of work.",
 ["samplers/combinatorial.py","samplers/cycle.py","samplers/random.py","samplers/utils.py","samplers/command_collection.py","sampling_context.py"],
 [("generators all the way down","samplers/combinatorial.py"),("recursion guard","sampling_context.py:for_sampling_variable"),("missing-wildcard fallback","samplers/utils.py:get_wildcard_not_found_fallback")],
 [],["generate","sample_prompts","interpreter step counter"])
p("C18","Template text is parsed as the syntax documentation says",
 "Every template text is split into literals, variants, wildcards, variables, wraps and comments exactly as the syntax documentation describes, preserving significant whitespace; text outside the grammar is rejected with a parse error.",
 ["inputs"],"every template text.","Tests sample a few hundred texts.",
 ["parser/parse.py"],[("grammar","parser/parse.py:create_parser")],[],["parse"])
p("C19","Custom delimiters change only the spelling of templates",
 "A template written with custom delimiters means exactly what the same template written with the default ones means.",
 ["inputs","configurations"],"every parser configuration and template.","Tests try a few configurations.",
 ["parser/config.py","parser/parse.py"],[("configurable grammar","parser/parse.py:create_parser")],[],["parse"])
p("C20","Magic prompt text clean-up keeps the prompt and removes only noise",
 "Cleaning up a model's reply keeps the original prompt verbatim when the reply starts with it, and only rewrites the documented noise in the rest.",
 ["inputs"],"every pair of prompt and reply.","Tests sample a dozen replies.",
 ["generators/magicprompt.py"],[("clean-up","generators/magicprompt.py:clean_up_magic_prompt")],[],["clean_up_magic_prompt"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
