"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["src/fauxdoc/" + f for f in files],
                    "state": [{"name": a, "meaning": b, "where": "src/fauxdoc/" + c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": "src/fauxdoc/" + b} for a, b in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})

prop("C01", "All randomness comes from the emitter's own seedable generator",
     "Whatever an emitter or field outputs is determined by its configuration, its call history and draws from generators that its own seed (or the seed of one of its children) controls. No output depends on a process-wide or shared random generator, the clock, operating-system entropy, object identity or set/hash ordering, and two instances never draw from the same generator. A user callback that asks for a generator is handed the generator its owner currently uses.",
     ["inputs", "histories", "configurations"], "every emitter/field class, every constructor configuration, every sequence of emit/reset/seed calls",
     "Tests fix a handful of seeds and sequences; they cannot see that some configuration (for example a branch only taken for larger item counts) reads other entropy.",
     ["mixins.py", "mathtools.py", "emitters/choice.py", "emitters/wrappers.py", "emitters/fromfields.py", "profile.py"],
     [("RandomMixin owns one generator per instance", "mixins.py"), ("weighted_shuffle draws from the generator it is given", "mathtools.py"), ("BoundWrapper passes the owner's generator", "emitters/wrappers.py")],
     [("rng", "the instance's generator", "mixins.py"), ("rng_seed", "seed the generator was last started from", "mixins.py")],
     ["values returned by an emitter or field call"])

prop("C02", "Seeding restarts all randomness an object owns from the given seed",
     "After an emitter or field is seeded with s it reports s as its seed, its own generator restarts from s, every child able to be seeded has been seeded with that same s, and any selection order drawn in advance has been drawn again from s, whatever happened before; seeding a schema does this for each of its fields, hidden ones included. For a single random emitter, what it emits after seeding with s is exactly what the same emitter constructed with seed s emits.",
     ["inputs", "histories", "configurations"], "every seedable class, every seed, every prior history of calls, every set of children or fields",
     "Tests compare a few short seeded runs of particular emitters; a child or history that is not reached only shows for other compositions and longer histories.",
     ["mixins.py", "emitters/choice.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py", "profile.py"],
     [("seed methods of the random mixins", "mixins.py"), ("Choice reshuffles after seeding", "emitters/choice.py"), ("Schema.seed_fields", "profile.py")],
     [("rng_seed", "recorded seed", "mixins.py")], ["seed(), seed_fields(), and the values emitted afterwards"])

prop("C03", "Reset returns an object to the state it had just after construction",
     "Resetting any emitter or field, after any history of calls, restores everything that emitting can change: it then emits the same values as right after construction with its current seed (for source-driven emitters: its own generator restarts), a field no longer reports a previous value, and every child has been reset too. Resetting a schema resets every field, hidden ones included, and resetting never disturbs the configuration.",
     ["histories", "configurations"], "every resettable class, every configuration, every prior history of calls",
     "Tests reset after one or two calls in a few configurations; state that a longer or differently configured history leaves behind is invisible to them.",
     ["mixins.py", "emitters/choice.py", "emitters/fixed.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py", "profile.py"],
     [("reset chains through the class hierarchy", "mixins.py"), ("Choice reshuffles on reset", "emitters/choice.py"), ("iterators are rebuilt on reset", "emitters/fixed.py")],
     [], ["reset(), reset_fields(), and the values emitted afterwards"])

prop("C04", "A composite's seed governs its children from construction and every reset",
     "When a composite emitter or field is constructed or reset, every child that has a seed is given the composite's current seed, and only after that is it reset, so the child's generator restarts from the composite's seed. Every child is covered, whatever its role and however many there are, including children replaced after construction.",
     ["inputs", "histories", "configurations"], "every composite class, any number and mix of children (with and without seeds), any history before a reset",
     "The order in which the seed is assigned and the child is reset matters for every mix of children; tests only check some outcomes with particular emitters.",
     ["mixins.py", "group.py", "emitters/text.py", "emitters/wrappers.py", "profile.py"],
     [("RandomWithChildrenMixin.reset assigns then resets", "mixins.py"), ("GroupMixin.setattr/do_method", "group.py")],
     [], ["children's seed attribute and reset calls"])

prop("C05", "Calling an emitter gives one value, or a list of exactly n values",
     "Calling any emitter without a number (or with None) returns one single value; calling it with a number n always returns a list, of exactly n values, for every n >= 0 including 0 and 1, or raises. A multiple-value call never silently returns more or fewer values, whatever its configuration and whatever its children emit.",
     ["inputs", "configurations", "histories"], "every emitter class, every n >= 0, every configuration, every value its children may emit (zero lengths included)",
     "Tests sample a few n and never the zero-length or zero-count corners; the length guarantee is over every n and every child output.",
     ["emitter.py", "emitters/choice.py", "emitters/fixed.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py"],
     [("Emitter.__call__ dispatch", "emitter.py"), ("each class's multi-value emission", "emitters/")],
     [], ["the value returned by emitter(n)"])

prop("C06", "Choosing without replacement never hands out the same position twice",
     "An emitter choosing without replacement hands out each position of its item sequence at most once between resets, across any mix of single and multiple emissions, and an emitter that replaces only after each call hands out each position at most once within one call. Weighted shuffling returns items from distinct positions, and exactly as many as were asked for.",
     ["inputs", "histories", "configurations"], "all item sequences, weights, and sequences of single/multiple emissions between resets",
     "Tests draw a few samples; a repeated position needs a particular mix of calls, sizes or draws.",
     ["emitters/choice.py", "mathtools.py"],
     [("pre-shuffled order consumed by a cursor", "emitters/choice.py"), ("weighted_shuffle's two strategies", "mathtools.py")],
     [("remaining order and cursor", "positions not handed out yet", "emitters/choice.py")], ["values emitted"])

prop("C07", "Asking for more unique values than remain raises and changes nothing",
     "When a call asks a no-replacement emitter for more values than remain (or a replace-after-call emitter for more than it has), it raises ValueError instead of returning short, repeated or wrapped values, and a failed call leaves the emitter exactly as it was. The number of items reported as remaining always equals the number that can still be emitted.",
     ["inputs", "histories", "configurations"], "every requested number, every history of successful and failed calls, weighted and unweighted, every configuration change in between",
     "Tests hit exhaustion at a few sizes and stop there; bookkeeping drift needs particular histories (failed call then retry, configuration changes, reseeding).",
     ["emitters/choice.py", "emitter.py"],
     [("remaining-count guard before any draw", "emitters/choice.py"), ("raise_uniqueness_violation", "emitter.py")],
     [("remaining count", "items still available", "emitters/choice.py")], ["ValueError, and values emitted after it"])

prop("C08", "Changing a choice emitter's settings takes effect at once and stays coherent",
     "Setting weights or cumulative weights always updates both views from the newly given ones (or clears both), and setting the replacement options keeps them coherent: replace-after-call implies replacement, and turning replacement off turns replace-after-call off. A change of weights, or turning replacement off, redraws the no-replacement order from the new settings and makes all items available again.",
     ["histories", "configurations"], "every order in which the public settings are assigned, interleaved with emissions",
     "The settings interact pairwise and with the pre-drawn order; tests assign each a few times, mostly on fresh objects.",
     ["emitters/choice.py"],
     [("property setters of Choice", "emitters/choice.py")],
     [("weights / cumulative weights", "two views of one setting", "emitters/choice.py")], ["the settings read back, and values emitted"])

prop("C09", "Draws select from the configured items with the weights in force",
     "Every value a choice emitter emits is drawn from the items it was given using the weights currently in force and the requested count, in every mode (with replacement, replace after call, without replacement). Unweighted emitters draw with equal weights.",
     ["inputs", "configurations", "histories"], "every mode, weighted or not, single and multiple emissions, after any change of settings",
     "Tests compare seeded samples for some modes; which population and weights reach the draw in every mode is a dataflow fact.",
     ["emitters/choice.py", "mathtools.py"],
     [("arguments passed to the generator's choice methods", "emitters/choice.py")],
     [], ["arguments of the random draws"])

prop("C10", "A rejected setting raises and leaves the object as it was",
     "Assigning weights of the wrong count, an iterator factory that yields nothing, or any already fixed attribute of a date/time range raises the documented error and leaves the object emitting or reading back exactly what it did before. Invalid arguments of this kind at construction (empty items, mismatched or doubly given weights, an empty sequence or iterator, a range start, step or length of the wrong kind) raise instead of producing an object.",
     ["inputs", "histories"], "every invalid argument, every prior state",
     "Tests assert that an error is raised, rarely that nothing changed, and only for sample arguments.",
     ["emitters/choice.py", "emitters/fixed.py", "dtrange.py"],
     [("validation precedes assignment", "emitters/choice.py"), ("factory check precedes assignment", "emitters/fixed.py"), ("set-once attribute setters", "dtrange.py")],
     [], ["exceptions, and state read back afterwards"])

prop("C11", "A field evaluates gate, repeat and emitter in order and remembers the result",
     "Generating a field's value asks its gate exactly once; if the gate is open it asks the repeat emitter exactly once and then the value emitter exactly once with that repeat count, and returns that result; if the gate is closed it returns None and asks neither. In both cases the field's previous value is the value just returned, until the next generation or reset.",
     ["inputs", "configurations", "histories"], "every combination of gate, repeat and value emitters, every value they emit, every history",
     "Extra or skipped evaluations of a child only show as shifted sequences for some stateful emitters; tests use a few fixed combinations.",
     ["profile.py"], [("Field.__call__", "profile.py")],
     [("previous", "last generated value", "profile.py")], ["calls received by gate, repeat and value emitters; returned and previous value"])

prop("C12", "A document evaluates every field once, in order, and omits only hidden ones",
     "Each document generated by a schema evaluates every one of its fields exactly once, in the order the fields were added, hidden ones included. The document contains exactly the non-hidden fields, each under its own name with the value that evaluation returned (None included).",
     ["inputs", "configurations", "histories"], "any number of fields, any mix of hidden fields, any values",
     "Tests build a few schemas; a skipped or doubled evaluation depends on the mix of hidden fields and on the values returned.",
     ["profile.py"], [("Schema.__call__", "profile.py")], [], ["the returned document; calls received by the fields"])

prop("C13", "Schema field collections are complete, ordered and correctly split",
     "A schema holds exactly the fields given since they were last set as a whole, in order and under their own names, with later additions kept alongside earlier ones. Its hidden and public collections split the fields by their hidden flag at the time of asking: every field is in exactly one of the two, in schema order.",
     ["histories", "configurations"], "every sequence of set/add operations and changes of the hidden flag, any number of fields",
     "Tests check small fixed schemas; the partition holds over all sets of fields and times of asking.",
     ["profile.py", "group.py"], [("Schema.set_fields/add_fields", "profile.py"), ("hidden_fields/public_fields", "profile.py")],
     [], ["fields, hidden_fields, public_fields"])

prop("C14", "Emitting from source fields only reads their previous values",
     "An emitter that copies from or is based on other fields reads, on each emission, the values those fields last generated; it never generates, resets, seeds or otherwise changes a source field while emitting. Each of its emissions reflects the sources' values current at that moment, with nothing remembered from earlier emissions. Resetting or seeding such an emitter leaves its sources alone too.",
     ["inputs", "histories", "configurations"], "one or many source fields, single or multiple emissions, any history of the sources",
     "Tests evaluate fields in a fixed order and check values; an extra evaluation of a source only shifts later output.",
     ["emitters/fromfields.py"], [("emission reads the previous value of each source", "emitters/fromfields.py")],
     [], ["calls received by source fields"])

prop("C15", "Attaching an emitter to source fields uses up none of their data",
     "Creating an emitter based on source fields, or giving it a new action, leaves each source that holds no value (its previous value is None) in its initial state, and leaves one that holds a value holding it without generating another. The documents a schema generates are therefore the same as if the sources' sequences had not been touched.",
     ["inputs", "histories", "configurations"], "any source fields in any state, any valid or invalid action",
     "Tests assert that the signature check happens; none compares the sources' later output with and without the attached emitter.",
     ["emitters/fromfields.py"], [("signature check of the action against source values", "emitters/fromfields.py")],
     [], ["calls received by source fields during construction and when assigning an action"])

prop("C16", "Copied values keep every source value in order, or are joined as text",
     "Copying one single-valued field yields its previous value unchanged; copying several fields or a multi-valued field yields all their non-empty previous values in source order with multi-valued ones flattened one level, or None when there are none. With a separator the same values are joined as text in that order.",
     ["inputs", "configurations"], "any number of sources, any mix of None, single and multiple values, with or without separator",
     "Tests cover sample combinations; the composition is over all combinations of source shapes.",
     ["emitters/fromfields.py"], [("CopyFields emission", "emitters/fromfields.py")], [], ["emitted value"])

prop("C17", "User callbacks get each source value once, in order, and a generator if wanted",
     "For each value they emit, callback-based emitters call the user's function exactly once, with the corresponding value of each source (one draw per source per emitted value, in order, under the source's name where sources are named), and emit exactly what it returned (the emitter based on fields reads the fields' current values, calls its action once per call and repeats the result as often as asked). The function receives the emitter's current random generator if and only if it accepts one, and wrapping an already wrapped function rebinds it to the new owner.",
     ["inputs", "configurations", "histories"], "any callback, any number of sources, single and multiple emissions, after reset and reseeding",
     "Tests use a few callbacks; pairing of values and the identity of the generator must hold for all counts and after every reset.",
     ["emitters/wrappers.py", "emitters/fromfields.py"], [("BoundWrapper call", "emitters/wrappers.py"), ("WrapOne/WrapMany emission", "emitters/wrappers.py"), ("BasedOnFields emission", "emitters/fromfields.py")],
     [], ["arguments the callback receives, and what is emitted"])

prop("C18", "Sequence emitters repeat their sequence exactly, with no item lost or added",
     "Sequential and iterator-based emitters emit the items in order, starting over from a fresh iteration when they run out, and single and multiple emissions advance the same position by exactly the number of values emitted. With reset-after-call every call starts at the first item; without it no call moves the position otherwise.",
     ["inputs", "histories", "configurations"], "any finite iteration, any mix of single and multiple emissions, both reset-after-call settings",
     "Tests step through short sequences; off-by-one consumption on one of the call forms needs a mixed history to show.",
     ["emitters/fixed.py"], [("infinite iteration over fresh iterators", "emitters/fixed.py"), ("islice/next consumption", "emitters/fixed.py")],
     [("iterator", "current position", "emitters/fixed.py")], ["values emitted"])

prop("C19", "Generated words and texts use exactly the parts their emitters supply",
     "A word of length L consists of exactly L alphabet values, and a text of L words consists of L words with L-1 separators between them, in the order their emitters supplied them, each supplied part being used exactly once. This holds alike for single and multiple emissions and for every length, including zero.",
     ["inputs", "configurations"], "every list of lengths (zeros included), any alphabet/word/separator emitters",
     "Tests sample lengths; a dropped, reused or misaligned part needs particular lists of lengths.",
     ["emitters/text.py"], [("Word emission slices one batch of characters", "emitters/text.py"), ("Text emission interleaves words and separators", "emitters/text.py")],
     [], ["emitted strings; calls received by the child emitters"])

prop("C20", "Group operations reach every member, skip only what is missing, hide no errors",
     "Setting an attribute or invoking a method on a group does so on every member that has it, exactly once and with the arguments given, whatever the position of members that are None or lack it, which are left alone. An error raised by a member's own method reaches the caller.",
     ["inputs", "configurations"], "any number and mix of members, any method and arguments, any exception raised by a member",
     "Tests use small groups of well-behaved members; swallowed errors and skipped members need a misbehaving or missing member in a particular place.",
     ["group.py", "mixins.py"], [("GroupMixin.setattr/do_method", "group.py")], [], ["calls received by members; exceptions"])

prop("C21", "User data is never modified and results are never aliased to internal state",
     "Items, weights, mappings and sequences given by the user are never modified by any operation, and what an emitter hands out for several values is a new list each time: changing it changes neither the user's data nor what is emitted later. The same goes for a schema's records and its maps of public and hidden fields, shuffled lists and alphabets. No two objects share mutable state they own, also when made from the same data or from defaults. (Single values are handed out as they are, and a multi-valued field keeps the list it last emitted.)",
     ["inputs", "histories"], "every class, every operation, every mutable argument and every returned list",
     "Tests do not mutate results or compare inputs afterwards; aliasing is a property of all paths.",
     ["mathtools.py", "emitters/choice.py", "emitters/fixed.py", "emitters/fromfields.py", "emitters/text.py", "emitters/wrappers.py", "mixins.py", "group.py", "profile.py"],
     [("defensive copies", "mathtools.py"), ("defensive copies", "emitters/choice.py")], [], ["user's arguments after any operation; returned lists"])

prop("C22", "Uniqueness figures are truthful and work for any items",
     "Whatever the items (hashable or not), the number of unique values that a choosing, sequential or fixed-value emitter reports equals the number of distinct values it can currently emit (all items with replacement, the items still left without, one for a fixed value; unknown for a factory's values), also after emitting, resetting, reseeding or changing its settings. A choosing emitter without replacement claims to emit unique values exactly when the items left are all distinct, and no other emitter ever claims it. For every emitter, composites included, asking never changes what is emitted or what is asked next and draws nothing.",
     ["inputs", "histories", "configurations"], "every item sequence, every mode and history",
     "Tests check a few item lists; truthfulness is over all item lists and histories.",
     ["emitters/choice.py", "mixins.py", "emitter.py", "emitters/fixed.py"], [("num_unique_values / emits_unique_values", "emitters/choice.py")],
     [], ["num_unique_values, emits_unique_values, num_unique_items"])

prop("C23", "Date/time ranges are immutable values",
     "Once constructed, a date/time range never changes: its start, step and length cannot be reassigned, and no operation (reading, slicing, searching, comparing, hashing, printing) alters what any other operation returns.",
     ["inputs", "histories"], "every range, every sequence of operations on it",
     "Tests assign each attribute once and do not interleave operations; caching makes order of operations matter.",
     ["dtrange.py"], [("set-once properties", "dtrange.py"), ("lazy caches derived from fixed attributes", "dtrange.py")],
     [("start, step, length", "fixed attributes", "dtrange.py")], ["attributes and results after any operations"])

prop("C24", "Equal date/time ranges hash equally, and equality means same values",
     "Two date/time ranges compare equal exactly when they contain the same values in the same order (start and step matter only as far as the length makes them observable), and ranges that compare equal have equal hashes. (Left open: two time-of-day ranges in opposite directions whose steps together make exactly 24 hours.) Comparison with other kinds of object is left to the other object.",
     ["inputs"], "every pair of ranges, including empty and one-element ones",
     "Tests compare sample pairs; the law is over all pairs and depends on matching case splits in two methods.",
     ["dtrange.py"], [("__eq__ and __hash__ case splits on length", "dtrange.py")], [], ["==, hash()"])

prop("C25", "Range indexing, slicing and searching agree on one arithmetic sequence",
     "In a date or datetime range item i is start + i*step for every valid index (negative ones counted from the end), its stop is one step past its last item, a slice is the range of exactly the items a list of them would give, and searching for item i answers i. Membership, counting and searching always agree, answer for any object without error other than 'not found', and honour search bounds.",
     ["inputs"], "every date/datetime range with a nonzero step, every index, slice and searched-for object",
     "Tests sample ranges and indices; agreement is over all of them.",
     ["dtrange.py"], [("index-to-value and value-to-index conversions", "dtrange.py")], [], ["[], slicing, in, index(), count()"])

prop("C26", "A range built from start and stop never overshoots and never has negative length",
     "A range built from a start, a stop and a step has as many items as there are steps from start that stay strictly before stop (in the step's direction), the partial last step included; when stop is not ahead of start the range is empty rather than an error. For times of day a stop that is not ahead of the start lies on the next round of the clock, so equal ones make a full day. Text stands for the date, time or datetime it spells. Start and stop of different kinds, undecipherable ones, and invalid step units are rejected with ValueError.",
     ["inputs"], "every start, stop, step and unit",
     "Tests cover sample ranges; sign and remainder cases are unbounded.",
     ["dtrange.py"], [("length computation with remainder", "dtrange.py"), ("argument parsing", "dtrange.py")], [], ["dtrange()"])

prop("C27", "Deprecated and public names stay reachable, listed and announced",
     "Every name a module declares public is importable from it, every deprecated name still resolves to its object with a DeprecationWarning and is listed among the module's names, and any other missing name raises AttributeError. Names used inside the package resolve on import.",
     ["inputs", "configurations"], "every public and deprecated name of every module, every unknown name",
     "Tests access some deprecated names; the registries and export lists must agree for all names.",
     ["typing.py", "warn.py", "emitters/__init__.py", "emitters/wrappers.py", "__init__.py"],
     [("module __getattr__/__dir__ with a registry", "warn.py")], [], ["module attribute access, dir(), from ... import *"])

prop("C28", "The package runs on every supported Python with the standard library alone",
     "The package's code uses only syntax and standard-library functions, methods and arguments available in every Python version it declares support for, and imports nothing outside the standard library beyond its declared conditional backports.",
     ["configurations"], "every supported interpreter version, every code path",
     "Tests here run on one interpreter version and only the paths they reach.",
     ["__init__.py", "typing.py", "mathtools.py", "emitters/choice.py", "emitters/fixed.py", "dtrange.py"],
     [("version-guarded imports", "typing.py")], [], ["import and use on Python 3.7 and later"])

prop("C29", "Any object with the documented emitter or field interface works as a part",
     "Composite emitters, fields and schemas rely, for the emitters and fields given to them, only on the documented emitter and field interfaces; anything beyond (a seed, an item list, replacement settings) is used only where present. A plain object with just the documented interface therefore never causes an AttributeError.",
     ["inputs", "configurations"], "every composite, every operation, children with any subset of optional attributes",
     "Tests mostly compose the package's own classes, which have the extra attributes.",
     ["mixins.py", "group.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py", "profile.py", "typing.py"],
     [("hasattr/getattr guards", "mixins.py"), ("protocol definitions", "typing.py")], [], ["AttributeError from composites"])

# -- listed, but outside what a static analysis can decide here
prop("C30", "Long-run frequencies follow the configured weights",
     "Over many draws the relative frequency of each item approaches its configured weight, in every mode and however the draws are divided into calls.",
     ["inputs", "histories"], "all weights and parameters, in the limit of many draws",
     "Tests draw finite seeded samples.",
     ["mathtools.py", "emitters/choice.py"], [("weight formulas", "mathtools.py")], [], ["frequencies of emitted values"])

prop("C31", "Time-of-day ranges wrap around midnight consistently",
     "In a range of times of day, item i is the start time plus i steps modulo 24 hours, in either direction, its stop is one step past its last item, and its slices are the times at the positions they select. In a range of at most 24 hours searching for item i answers i, whether or not the range passes midnight. An answer is always a position that holds the time, membership, counting and searching agree, and anything that is not a time of the same kind (a date, text, a time with a zone in a range without) is just not found.",
     ["inputs"], "every time-of-day range and searched-for time",
     "Tests sample a few ranges.",
     ["dtrange.py"], [("time arithmetic on a reference date", "dtrange.py")], [], ["[], in, index()"])

prop("C32", "Weighted shuffling always finishes, for every valid weighting",
     "Weighted shuffling terminates for every finite sequence of non-negative weights with enough positive entries, with a running time that stays practical however skewed the weights are.",
     ["inputs"], "all weightings and generators",
     "Tests use a few weightings.",
     ["mathtools.py"], [("rejection sampling until enough distinct positions are found", "mathtools.py")], [], ["return of weighted shuffling"])

prop("C33", "Curve and chance helpers build the choice emitters they describe",
     "The Poisson and Gaussian helpers give an emitter choosing among exactly the given items in which item k, counting from 1, has the weight of the Poisson or Gaussian curve at k (for a positive mean or deviation), or the given floor where that is more; replacement settings, noun and seed are those given. A chance emitter is True with weight p out of 1 in all, always False for p <= 0 and always True for p >= 1. The mathematical functions compute these curves, and clamping limits a number to exactly the bounds given, zero included.",
     ["inputs", "configurations"], "every item sequence, mean, deviation, floor, probability and bound",
     "Tests compare rounded values of the curves at a few points and seeded samples of the helpers.",
     ["mathtools.py", "emitters/choice.py"], [("the curves and clamp", "mathtools.py"), ("the helpers", "emitters/choice.py")], [], ["weights of the emitters made", "values of the functions"])

prop("C34", "A part or setting replaced after construction takes over at once",
     "Replacing a part of a composite (a field's emitter, repeat or gate; any entry of a composite's emitters; a wrapper or action function; source fields; a schema's fields) or a setting of a fixed or copying emitter (a value, an iterator factory, a separator), after any history, takes effect at once and completely: what is emitted from then on comes from the replacement just as if it had been there all along (a new wrapper, action or factory starts afresh), also after resetting and seeding, and reads give it back. The part replaced is no longer asked, seeded or reset. What is computed from parts (a field having many values, a group being single-valued, a schema's public fields) follows. (The maximum of unique values a word or text reports is fixed at construction.)",
     ["histories", "configurations"], "every replaceable part and setting, every way of replacing it, every history before and after",
     "Tests replace a few parts on new objects; anything remembered from before the replacement shows only after particular histories.",
     ["profile.py", "mixins.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py", "emitters/fixed.py"],
     [("parts live in one map", "mixins.py"), ("setters", "profile.py"), ("source groups", "emitters/fromfields.py")], [], ["values emitted after an assignment", "calls the old part receives"])
prop("C35", "An alphabet holds exactly the characters of its ranges, ends included",
     "An alphabet made from character ranges is the list of exactly the characters of those ranges, both ends included, range after range in the order given, whatever the ranges (single characters, overlapping, repeated and empty ones too). Without ranges (None or none given) it is the documented default alphabet, every time.",
     ["inputs"], "every sequence of ranges of code points",
     "Tests look at a handful of short ranges.",
     ["emitters/text.py"], [("make_alphabet", "emitters/text.py")], [], ["the list returned"])

prop("C36", "Separately made objects never influence one another",
     "Making, calling, seeding, resetting, measuring or changing one object (an emitter of any class and configuration, a field, a schema, a group, an alphabet, a shuffle) changes nothing in what another, separately made object emits, reports or holds, when the two were not given a common part: no values, counters, caches, default arguments, class attributes or module data of the package carry over from one to the other, whichever is made or used first.",
     ["histories", "configurations"], "every class and configuration, every input of both objects, the other made and used before, between and after",
     "Tests make fresh objects from near identical data and look at one at a time; leftovers in shared places show only with two objects of different data in one process.",
     ["emitters/choice.py", "emitters/fixed.py", "emitters/text.py", "emitters/wrappers.py", "emitters/fromfields.py", "profile.py", "mixins.py", "group.py", "mathtools.py"],
     [("per-object state set in __init__", "mixins.py"), ("module and class level names", "emitters/choice.py")], [], ["values emitted by one object with and without the other"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P))
