ALLJ = [PY + "jvozba.py", "js/src/jvozba.ts", "rs/src/jvozba.rs"]
ALLT = [PY + "tools.py", "js/src/tools.ts", "rs/src/tools.rs"]
ALLM = [PY + "tarmi.py", "js/src/tarmi.ts", "rs/src/tarmi.rs"]
ALLK = [PY + "katna.py", "js/src/katna.ts", "rs/src/katna.rs"]
IMPLS = ("Monitored on the Python, TypeScript and Rust implementations (and the committed js/docs when it differs from "
         "js/src). Assurance is that of the executions observed; it trusts the oracle in lib/ and the drivers.")

prop("C01", "Every lujvo that is built is a valid word of the requested kind",
     "Whenever a lujvo is returned for a list of components, the word analyser of the same implementation accepts it "
     "under the same settings, as a lujvo or extended lujvo, or as a decomposable cmevla exactly when a cmevla was "
     "requested. The brivla test says yes for it exactly when no cmevla was requested.",
     ["inputs", "configurations"], "every tanru (words, zi'evla, literal rafsi, final-hyphen forms) under every "
     "combination of y-hyphen, consonant, experimental-rafsi, glide, mz and cmevla settings",
     "The tests compare a few hundred listed tanru with listed results; the generator and the analyser are separate "
     "code that must agree on an unbounded set of tanru times 144 settings.",
     ALLJ + ALLT, [("candidates rejected by the fall-apart and slinku'i tests", PY + "jvozba.py:get_lujvo_from_list"),
                   ("hyphen selection", PY + "jvozba.py:combine"), ("acceptance", PY + "tools.py:analyse_brivla")],
     "runtime monitor: generated lujvo fed back to the analyser (round-trip oracle) over random and hostile tanru",
     IMPLS)

prop("C02", "A lujvo comes apart into exactly the components it was made of",
     "Analysing a lujvo returned for a tanru yields as many rafsi as the tanru has components, each one a form of the "
     "component in its place. Asking for the tanru of that lujvo gives back, place by place, the component itself, or "
     "where its rafsi belongs to no or several words, a form of that rafsi (of several, it may be one of the words; brod- stays brod-).",
     ["inputs", "configurations"], "every tanru for which a lujvo exists, under every combination of settings",
     "The tests check listed words one by one; the guarantee couples the rafsi search, the hyphen rules and two "
     "decomposers for every combination of components.",
     ALLJ + ALLK + ALLT, [("cutting off rafsi from the left", PY + "katna.py:jvokaha_2"),
                          ("extended lujvo", PY + "tools.py:analyse_brivla"),
                          ("rafsi to word", PY + "katna.py:selrafsi_list_from_rafsi_list"),
                          ("rafsi of a word", PY + "jvozba.py:get_rafsi_list_list")],
     "runtime monitor: build, take apart, compare with the tanru and a frozen rafsi dictionary", IMPLS)

prop("C03", "The lujvo returned is the best one that exists",
     "For components with standard rafsi, the lujvo returned has the lowest score of all words that consist of one "
     "form per component, in order, and are accepted by the analyser under the same settings, and an error is raised "
     "only when there is no such word. The rafsi of an accepted word, given back as literal components, make a lujvo "
     "that is no worse than the word. Fixing a component to one of its rafsi never gives a better lujvo, nor one "
     "where the free tanru has none.",
     ["inputs", "configurations"], "every tanru of standard rafsi under every combination of settings",
     "The best lujvo is a minimum over exponentially many combinations of rafsi and hyphens; a test that lists the "
     "expected result covers single tanru only.",
     ALLJ, [("dynamic programming over (unreliable, reliable) prefixes", PY + "jvozba.py:get_lujvo_from_list"),
            ("keeping the best prefix per final", PY + "jvozba.py:update_current_best"),
            ("scores", PY + "jvozba.py:score")],
     "runtime monitor: brute-force enumeration oracle, metamorphic restriction of tanru, cross-implementation "
     "witnesses, published expectation lists under all settings", IMPLS)

prop("C04", "The score of a lujvo is the published sum over its pieces",
     "The score of a lujvo is the sum over its pieces of 1000 per letter (1100 per y in a hyphen), minus ten times the "
     "rank of each rafsi's shape, minus its vowels, minus one for a finished two-part lujvo of the favoured shape. The "
     "score reported when a lujvo is built and the score asked for afterwards are that same number.",
     ["inputs", "configurations"], "every lujvo, extended lujvo and decomposable cmevla, built or given, in any "
     "spelling, under every combination of settings",
     "The listed scores sample a few hundred words; score bookkeeping runs incrementally during the search and again "
     "from scratch in the scorer.",
     ALLJ + ALLK + ALLM, [("score of a rafsi", PY + "jvozba.py:score"), ("tiebreak", PY + "jvozba.py:tiebreak"),
                          ("score of a word", PY + "katna.py:score_lujvo"), ("shape ranks", PY + "tarmi.py:rafsi_tarmi")],
     "runtime monitor: scores recomputed independently from the observed pieces", IMPLS)

prop("C05", "Pieces make up the word and indices delimit its rafsi",
     "The pieces of an analysed word, put together, are the normalised word, hyphen pieces only stand between rafsi, "
     "and the reported index ranges delimit exactly the pieces that are not hyphens, in order, without overlap. The "
     "ranges given when the lujvo is built are those of its analysis.",
     ["inputs", "configurations"], "every accepted word, built or given, in any spelling, under every combination of "
     "settings",
     "Tests give ranges for listed words; hyphen pieces and rafsi are told apart by their text, which must work for "
     "every piece that can occur.",
     ALLT + ALLJ, [("indices", PY + "tools.py:get_rafsi_indices"), ("pieces", PY + "tools.py:analyse_brivla"),
                   ("indices while building", PY + "jvozba.py:get_lujvo_from_list")],
     "runtime monitor: conservation and interval invariants on every decomposition observed", IMPLS)

prop("C06", "Junctions obey the morphology and the chosen hyphen rules",
     "In every word that is built or accepted as a lujvo, no two rafsi meet in an impossible consonant pair or banned "
     "triple, r, n, y and 'y stand only where their rules allow, and the initial vowel-final rafsi of a plain lujvo is "
     "hyphenated as required. With y forced no r- or n-hyphen occurs, with the standard rule no 'y stands where r or n can, and a "
     "pair mz occurs only when allowed.",
     ["inputs", "configurations"], "every lujvo built or accepted, under every combination of settings",
     "Which hyphen is needed depends on both neighbours, the position, the rest of the word and the settings; tests "
     "sample pairs of neighbours.",
     ALLJ + ALLK + ALLT, [("hyphens when building", PY + "jvozba.py:combine"),
                          ("hyphens when taking apart", PY + "katna.py:jvokaha"),
                          ("pairs", PY + "data.py:VALID")],
     "runtime monitor: junction rules of the CLL asserted on every decomposition observed", IMPLS)

prop("C07", "More permissive settings only add words",
     "A word accepted under some settings is still accepted, as the same kind with the same pieces, when mz, glides, "
     "experimental rafsi, a weaker consonant rule or 'y beside r and n is additionally allowed (a lujvo with m-y-z may "
     "become an extended lujvo when mz is). A tanru that has a lujvo still has one then, and its score is no worse.",
     ["inputs", "configurations"], "every word and tanru and every pair of settings of which one is more permissive",
     "Relates two runs under two settings; the tests list results per setting for a handful of words.",
     ALLT + ALLJ + ALLK, [("settings threaded through the analyser", PY + "tools.py:analyse_brivla"),
                          ("and through the generator", PY + "jvozba.py:get_lujvo_with_analytics")],
     "runtime monitor: metamorphic relation between runs under ordered settings", IMPLS)

prop("C08", "Consonant and glide settings admit exactly the words they describe",
     "A word that is otherwise a brivla is accepted under the one-, two-consonant and cluster rule exactly when it has "
     "one consonant, two consonants or a cluster, and a cluster; consonants on the two sides of a y form a cluster. "
     "Glides count as consonants exactly when the glide setting is on, and lujvo that are built obey the same rule: "
     "none is built that breaks it, and an accepted word can be built of its own rafsi under it.",
     ["inputs", "configurations"], "every word accepted under the weakest consonant rule, and every lujvo built, under "
     "every combination of the other settings",
     "Counting is spread over several places of the analyser and the search; tests hold a few soft words.",
     ALLT + ALLJ + ALLK, [("requirement in the analyser", PY + "tools.py:analyse_brivla"),
                          ("in the search", PY + "jvozba.py:has_cluster"), ("in the decomposer", PY + "katna.py:get_veljvo")],
     "runtime monitor: independent consonant count against acceptance under each rule", IMPLS)

prop("C09", "Every string is classified as exactly the kind of word it is",
     "A string is called gismu, lujvo, zi'evla or decomposable cmevla exactly when the published morphology says so "
     "under the chosen settings, and a lujvo's pieces are the only valid ones. Words of the published dictionary and "
     "expectation lists get their published kind and pieces under every combination of settings, and words with other "
     "uses of y get the same answer from every implementation.",
     ["inputs", "configurations"], "every string over the Lojban letters, apostrophe and y, under every combination "
     "of settings",
     "The dictionary lists contain well-formed words; near-misses, which an analyser must tell from them, are "
     "unbounded.",
     ALLT + ALLM + ALLK, [("classifier", PY + "tools.py:analyse_brivla"), ("zi'evla", PY + "tools.py:check_zihevla_or_rafsi"),
                          ("slinku'i", PY + "tools.py:is_slinkuhi"), ("lujvo", PY + "katna.py:jvokaha")],
     "runtime monitor: reference grammar written from the CLL, published lists, majority of three implementations",
     IMPLS)

prop("C10", "An accepted word never falls apart in speech",
     "No accepted word that starts with a consonant is still a brivla when a cmavo of one vowel is said before it, and "
     "one accepted under the default consonant, glide and rafsi settings not when any cmavo are, whatever else is "
     "allowed; no accepted word or built lujvo consists of such cmavo followed by another accepted word.",
     ["inputs", "configurations"], "every accepted word, built or given, with every prefix (C)V, VV or V'V under the "
     "same settings, and every compound of cmavo under any settings for words accepted without the experimental ones",
     "A relation between two words (tosmabru and slinku'i), for all words; the tests list a few famous cases.",
     ALLT + ALLJ, [("tosmabru when building", PY + "jvozba.py:get_lujvo_from_list"), ("slinku'i", PY + "tools.py:is_slinkuhi"),
                   ("tosmabru when analysing", PY + "katna.py:jvokaha")],
     "runtime monitor: prefix and suffix metamorphic relation on accepted words", IMPLS)

prop("C11", "Every input gets a well-formed answer or a documented error",
     "Whatever string or list of strings and settings are passed, every entry point returns an answer of its documented "
     "form or raises one of the library's documented errors with a message; it does not crash, and strings with "
     "letters outside the alphabet are never accepted as words or made into lujvo. Fewer than two components are an "
     "error, and arguments of another type a TypeError.",
     ["inputs", "configurations"], "every Unicode string and list of strings, under every combination of settings",
     "Most inputs of a checker are wrong ones; tests pass a few dozen of them, mostly well-formed.",
     ALLJ + ALLT + ALLK + [PY + "exceptions.py", "js/src/exceptions.ts", "rs/src/exceptions.rs"],
     [("argument checks", PY + "jvozba.py:get_lujvo_with_analytics"), ("normalisation", PY + "tools.py:normalise"),
      ("checks of the classifier", PY + "tools.py:analyse_brivla")],
     "runtime monitor: crash, exception and answer-shape monitor under hostile and random inputs; Rust with overflow "
     "checks and debug assertions", IMPLS)

prop("C12", "Spelling does not matter and the entry points agree",
     "Words and tanru written with capitals, h for ', commas or leading full stops, as a string or as a list, with any "
     "blanks, get the same answer as in plain spelling. The analyser, the brivla test, the veljvo and the score agree "
     "on what a word is, and a lujvo built with and without analytics is the same; settings left out are the "
     "documented defaults.",
     ["inputs", "configurations"], "every word and tanru in every spelling, under every combination of settings",
     "Relates several runs on the same input; the tests call one entry point with one spelling.",
     ALLT + ALLK + ALLJ, [("normalisation", PY + "tools.py:normalise"), ("brivla test", PY + "tools.py:is_brivla"),
                          ("veljvo", PY + "katna.py:get_veljvo"), ("score", PY + "katna.py:score_lujvo"),
                          ("with and without analytics", PY + "jvozba.py:get_lujvo")],
     "runtime monitor: metamorphic and differential relation between spellings and entry points", IMPLS)

prop("C13", "An answer depends only on the arguments and leaves no trace",
     "The same call gives the same answer whatever was asked before, in whatever order, in any process, under any hash "
     "seed and from several threads at once. Arguments are not changed, answers are not shared with later ones, and no "
     "file, output or process state is touched.",
     ["inputs", "histories", "schedules"], "every history of calls of every entry point, every interleaving of threads, "
     "every hash seed",
     "Needs histories and schedules; the tests make each call once in a fixed order in one process.",
     ALLJ + ALLT + ALLK, [("rafsi lookup table", PY + "rafsi.py"), ("candidates in a dictionary", PY + "jvozba.py:update_current_best"),
                          ("default arguments", PY + "katna.py:get_veljvo")],
     "runtime monitor: replay of recorded call histories in other orders, processes, threads and hash seeds; audit "
     "hook and state snapshots", IMPLS)

prop("C14", "The Python, JavaScript and Rust implementations give the same answers",
     "For the same arguments the implementations return the same lujvo, score, index ranges, kind, pieces, components "
     "and verdicts, and where one reports that there is none, so do the others.",
     ["inputs", "configurations"], "every word, tanru and rafsi under every combination of settings",
     "Each implementation is tested against its own copy of the lists; where they differ outside the lists no test "
     "can see.",
     ALLJ + ALLT + ALLK + ALLM, [("get_lujvo", PY + "jvozba.py:get_lujvo"), ("analyse_brivla", PY + "tools.py:analyse_brivla"),
                                 ("get_veljvo", PY + "katna.py:get_veljvo")],
     "runtime monitor: differential execution of three implementations with majority blame",
     "The implementations are run on the same generated calls and answers are compared in full; a fault all share is "
     "left to the other checks.")

prop("C15", "Every rafsi of the dictionary works and leads back to its word",
     "All implementations hold the same dictionary of words and rafsi, no rafsi has two owners, and every short rafsi is "
     "made from the letters of its gismu and well-formed. Every word can be used in every place, and each rafsi in a "
     "lujvo leads back to its word.",
     ["inputs", "configurations"], "every entry of the dictionary, every place in a lujvo, partners and settings sampled",
     "The tests never go through the dictionary, of some 1500 words; they look up the rafsi the listed words happen to use.",
     [PY + "rafsi.py", "js/src/rafsi.ts", "rs/src/rafsi.rs", PY + "jvozba.py", PY + "katna.py", "js/src/katna.ts", "rs/src/katna.rs"],
     [("dictionary", PY + "rafsi.py:RAFSI"), ("lookup", PY + "katna.py:search_selrafsi_from_rafsi"),
      ("use", PY + "jvozba.py:get_rafsi_list_list")],
     "runtime monitor: exhaustive walk over the dictionary with a round trip per entry and place",
     "Every entry, every lookup and every place is exercised each run; partners and settings are sampled. The published "
     "dictionary is the frozen copy in lib/.")

prop("C16", "Every call ends after work in proportion to its input",
     "Every call of every entry point ends, with an answer or an error, after an amount of work and depth of recursion "
     "in proportion to the length of the word or the number of components, however repetitive or hostile; none hangs, "
     "blows up exponentially, overflows the stack or exhausts memory.",
     ["inputs", "configurations"], "every word and tanru of any length, under every combination of settings",
     "The search space of hyphens and rafsi grows exponentially with the number of components; tests use short inputs, "
     "on which an exponential search is not noticed.",
     ALLJ + ALLT + ALLK, [("best prefix per final keeps the search linear", PY + "jvozba.py:update_current_best"),
                          ("mutual recursion of the classifier", PY + "tools.py:analyse_brivla"),
                          ("search for the place where a word falls apart", "rs/src/tools.rs:check_zihevla_or_rafsi")],
     "runtime monitor: counters of work on every call (steps, block counts, allocations) with linear bounds, time limit, "
     "watchdog; guided search for costly inputs", "Inputs up to 500 letters or 90 components are executed; larger ones are not.")

prop("C17", "A lujvo taken apart and built again never gets worse, and settles",
     "Every accepted plain lujvo and every lujvo built of words and standard rafsi can be built again from its components "
     "under the same settings, and the result scores no more than the original. Building that result's components once "
     "more gives the very same lujvo, score and index ranges.",
     ["inputs", "configurations", "histories"], "every accepted lujvo and every tanru that has one, under every "
     "combination of settings",
     "Composes the decomposer, the dictionary in both directions, the scorer and the search; the tests run each apart "
     "on listed words.",
     ALLK + ALLJ + ALLT, [("components", PY + "katna.py:get_veljvo"), ("score", PY + "katna.py:score_lujvo"),
                          ("search", PY + "jvozba.py:get_lujvo_from_list"), ("rafsi of a word", PY + "jvozba.py:get_rafsi_list_list")],
     "runtime monitor: composed round trip with score comparison and fixpoint oracle",
     IMPLS + " Words given as extended lujvo or cmevla, and lujvo of experimental rafsi, are only held to the fixpoint: "
     "the analyser admits more of those than the generator makes.")

prop("C18", "The command-line programs and settings strings do what the library does",
     "The jvotci program, called with a tanru or a word, or kept in an interactive session in which flags are switched, "
     "prints the lujvo, or the kind, pieces, score, components and best lujvo that the library gives under the settings "
     "reached, and reports failure in its exit status. So do the interactive Python programs. Settings strings are "
     "parsed, shown, toggled and enumerated as documented.",
     ["inputs", "configurations", "histories"], "every input line and every sequence of flags and inputs",
     "The programs have no tests at all; their answers depend on the session before.",
     ["rs/src/main.rs", "rs/src/tarmi.rs", PY + "jvozba.py", PY + "katna.py", PY + "tarmi.py", "js/src/tarmi.ts"],
     [("Rust program", "rs/src/main.rs:main"), ("settings strings", "rs/src/tarmi.rs:from_str"),
      ("flags", "rs/src/tarmi.rs:apply_flags"), ("Python programs", PY + "jvozba.py:__main__"),
      ("all settings", PY + "tarmi.py:SettingsIterator")],
     "runtime monitor: sessions recorded at the programs' boundary, checked against a model of the session and the "
     "library", "Sessions of up to some 60 lines of lower-case Lojban letters.")

prop("C19", "The web pages show what the library answers to the text typed, per setting",
     "For the text last typed, the demo page shows one table in which each of the 72 combinations of settings finds, by its "
     "labels, exactly one cell, holding the library's answer: kind, pieces and components of a word, the lujvo or cmevla of "
     "a tanru, or its refusal, in the colour of its outcome. Modes, whatever was clicked before, apply; easy mode shows the "
     "default settings. The debugging page shows the library's answer likewise, and the documented examples hold.",
     ["inputs", "configurations", "histories", "schedules"], "every text, and every order and timing of typing and clicking",
     "The pages have no tests at all. What is shown is a compressed table whose layout depends on the answers, and on "
     "what was typed and clicked before.",
     ["demo_page.js", "index.html", "debug-ts.html", "js/docs", "README.md", "examples"],
     [("demo page", "demo_page.js:go"), ("debouncing", "demo_page.js:goDebounced"), ("debugging page", "debug-ts.html:ko"),
      ("examples", "examples/js_example.js")],
     "runtime monitor: recorded sessions of the pages in a small DOM with a virtual clock, table read back by its labels "
     "and compared with the library",
     "The pages run in a DOM of our own, with the calls a page of this kind uses, not in a browser; layout and looks are "
     "not seen. Texts of up to 120 characters.")

prop("C20", "The scripts turn any export into the same right tables for each language",
     "For every dictionary export, make_rafsi_list.py writes one and the same table for Python, TypeScript, JavaScript and "
     "Rust: each gismu (an experimental one only if no gismu shares its first four letters) and each cmavo with rafsi, with "
     "its official rafsi, those decided by hand, and those its notes propose that no word has officially or by hand and that do not "
     "begin with an impossible pair, ordered CVC, CV'V, CCV, CVV. The test list scripts keep every word, under its kind, "
     "and every row.",
     ["inputs"], "every export, with any assignment, proposal and conflict of rafsi",
     "The scripts have no tests; a slip shows only in the tables made from the next export, as missing or doubly owned rafsi.",
     ["make_rafsi_list.py", "make_js_tests.py", "make_dictionary_test_list.py", PY + "rafsi.py", "js/src/rafsi.ts", "rs/src/rafsi.rs"],
     [("rafsi list", "make_rafsi_list.py:rafsi_list"), ("priority of official rafsi", "make_rafsi_list.py:priority_rafsi"),
      ("kinds of words", "make_dictionary_test_list.py:all_words"), ("test rows", "make_js_tests.py")],
     "runtime monitor: the scripts run on generated exports, their outputs loaded by each language and compared with the rules",
     "Exports of up to 40 entries. The download is replaced by the generated export. Two words that propose the same rafsi, "
     "and proposals written without anything between them, are not judged.")

prop("C21", "The exported predicates tell sounds, shapes and syllables apart rightly",
     "For every string, the exported predicates and shape functions beside the main entry points answer as documented: "
     "vowel, consonant, glide, Lojban letters, gismu and its shape, standard rafsi and the shape of one, syllables of a vowel "
     "run, beginnings and middles of zi'evla, gismu-or-lujvo, slinku'i, strict and loose decomposition, score of a piece, "
     "components of a tanru. Those about words agree with what the analyser says of the word, and all implementations agree.",
     ["inputs", "configurations"], "every string and setting",
     "The tests call one of them, on the dictionary's gismu. The others are met only through the main entry points, which mask "
     "much of what they answer.",
     [PY + "tarmi.py", PY + "tools.py", PY + "katna.py", "js/src/tarmi.ts", "js/src/tools.ts", "rs/src/tarmi.rs",
      "rs/src/tools.rs"],
     [("shapes", PY + "tarmi.py:rafsi_tarmi"), ("syllables", PY + "tarmi.py:split_vowel_cluster"),
      ("clusters", PY + "tarmi.py:is_zihevla_middle_cluster"), ("gismu or lujvo", PY + "tools.py:is_gismu_or_lujvo"),
      ("slinku'i", PY + "tools.py:is_slinkuhi"), ("decomposition", PY + "katna.py:jvokaha")],
     "runtime monitor: own statement of each predicate, and relations with the analyser, over exhaustive short and random "
     "long strings in every implementation",
     "Strings of the functions' documented domains: not empty, of Lojban letters (one letter for vowel and consonant). A "
     "function that is moved is looked up elsewhere; one that is renamed is not observed.")
