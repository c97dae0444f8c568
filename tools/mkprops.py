#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Context edits are exact set edits and every view stays consistent",
 "After any sequence of adding, deleting, renaming or redefining objects and attributes (by row, column, intent or extent), a context holds exactly the objects, the attributes (in order) and the incidences that the same edits applied to the mathematical relation give, and every way of reading it (table, rows, length, intents, extents, single values, object-attribute pairs) agrees with them. "
 "Names of objects, and of attributes, stay pairwise distinct: members that would share a name are renamed by appending '_' and their position. "
 "An edit that is refused (unknown name, wrong length) raises and leaves the context exactly as it was, and no edit reaches back into lists handed in by the caller or into copies made earlier.",
 ["histories", "inputs"],
 "every starting context, every finite sequence of edits and reads, including refused edits, duplicate names, contexts with no objects or no attributes, copies and scales made from a context",
 "Tests perform one fixed edit sequence on one shape; the guarantee is about every history, including interleavings of reads (which may be cached) and edits and about name clashes and empty contexts.",
 ["fca/context.py", "fca/scale.py"],
 [("re-running the constructor after each edit", "fca/context.py Context.__init__, add_object, add_attribute, set_object_intent, set_attribute_extent, delete_*, rename_*"),
  ("duplicate-name renaming", "fca/context.py Context.__init__")],
 [("objects, attributes", "ordered names", "Context._objects, _attributes"), ("incidence", "boolean table", "Context.np_table / cross_table")],
 ["Context.objects", "Context.attributes", "Context.table", "Context.get_object_intent", "Context.get_attribute_extent", "Context.get_value", "Context.object_attribute_pairs"])

prop("C02", "Derivation and closure operators compute exactly the common elements",
 "For every context and every collection of its attributes (objects), the derivation returns exactly the objects (attributes) that have all of them - all objects (attributes) when the collection is empty - and the closure is the derivation applied twice, through every entry point (context methods by name or by index, and the free functions). "
 "Restricted to the first k attributes, the closure is that part of it. The associative variants report, for each element, exactly how many of the given (respectively derived) elements it is incident with, together with the extent size. "
 "Queries never change the context or their arguments, and always reflect the current state of the context.",
 ["inputs", "histories"],
 "every context (including empty ones, duplicate or full or empty rows), every subset given as list, tuple or set, at any point of an edit history",
 "Tests check one closure on one random context with single attributes; the operators are the base of every other computation and must be exact for all subsets and after all edits.",
 ["fca/context.py", "fca/algorithms/closure_operators.py"],
 [("row/column conjunction", "fca/context.py Context.oprime_inds, aprime_inds, oclosure_inds, aclosure_inds, associative_*"),
  ("set intersection", "fca/algorithms/closure_operators.py oprime, aprime, oclosure, aclosure")],
 observe=["return values of oprime/aprime/oclosure/aclosure/*_inds/associative_*"])

prop("C03", "Concept enumeration yields every formal concept exactly once",
 "For every context, the concepts it reports (as a list, through the lattice, or after running the concept iterator to its end) are exactly the pairs (extent, intent) with extent' = intent and intent' = extent, each once. "
 "While iterating, every intent handed out is already final, is an intent of the context and differs from all earlier ones, and the context is never changed by the enumeration.",
 ["inputs", "configurations"],
 "every context: any shape including no objects or no attributes, repeated, full and empty rows and columns, any order of rows",
 "The only test checks two concepts and a size bound on one file; completeness, soundness and non-repetition have to hold for every relation.",
 ["fca/algorithms/norris.py", "fca/context.py", "fca/concept_lattice.py"],
 [("incremental insertion of objects with a canonicity test", "fca/algorithms/norris.py iterative_norris"), ("list construction", "fca/algorithms/norris.py norris")],
 observe=["Context.concepts", "Context.iterate_concepts()", "norris(context)", "ConceptLattice(context).concepts"])

prop("C04", "Concept lattices report the true concept order",
 "For every context, a concept lattice reports as parents (children) of a concept exactly its upper (lower) covers in the subconcept order, as filter (ideal) exactly the strictly greater (smaller) concepts, and as top and bottom the greatest and least concept; membership, position, length and indexing agree with its list of concepts. "
 "This stays true whatever has been queried before and after interest indices have been attached to the concepts. "
 "Looking up neighbours works with any concept object equal to a member.",
 ["inputs", "histories"],
 "every context and every concept, every order of queries, including after index values were stored in the concepts",
 "No test looks at the order relation at all; it is quadratic in the number of concepts and depends on hashing mutable concepts.",
 ["fca/concept_lattice.py", "fca/algorithms/norris.py", "fca/concept.py"],
 [("covering relation", "fca/algorithms/norris.py compute_covering_relation"), ("neighbour lookup by concept hash", "fca/concept.py Concept.__hash__/__eq__, fca/concept_lattice.py parents/children")],
 observe=["ConceptLattice.parents/children/filter/ideal/top_concept/bottom_concept/index/__contains__/__len__/__getitem__"])

prop("C05", "Concept systems keep order queries in step with their members",
 "A concept system behaves as the list of concepts obtained from the given ones by the appends and removals performed on it: length, indexing, membership and position agree with that list, and appending something that is not a concept is refused without effect. "
 "At every moment parents and children are exactly the covers in the intent order among the current members, whatever was queried before the last append or removal, and top and bottom are a maximal and a minimal member. "
 "Two systems never influence each other, nor does a system change the list it was made from.",
 ["histories"],
 "every finite sequence of appends, removals and queries on any family of concepts, not only complete lattices",
 "No test uses concept systems; the covers are cached between queries so only histories can show a stale answer.",
 ["fca/concept_system.py", "fca/concept.py"],
 [("cached covering relation dropped on change", "fca/concept_system.py append, remove, parents, compute_covering_relation")],
 [("_concepts", "members in order", "ConceptSystem"), ("_parents", "cached covers", "ConceptSystem")],
 ["ConceptSystem.parents/children/top_concept/bottom_concept/filter/ideal and container operations"])

prop("C06", "Implication closure is the least superset closed under the implications",
 "For every attribute set and every list of implications, in any order and possibly with repeated, equivalent, empty-premise or empty-conclusion members, both closure functions return the least superset of the set that respects every implication. "
 "The bounded variant returns this closure, or gives up exactly if it would add one of the first n elements of the given base order. They return a new set and change neither the set nor the implications they are given, so repeated calls give the same answer.",
 ["inputs"],
 "every finite set of attributes and every finite list of implications over them",
 "Doctests that covered this do not run under Python 3, and three fixed lists cannot show order-dependence, repeated members or chains.",
 ["fca/algorithms/closure_operators.py"],
 [("repeated passes", "fca/algorithms/closure_operators.py simple_closure"), ("premise counters", "fca/algorithms/closure_operators.py lin_closure")],
 observe=["simple_closure", "lin_closure", "closure"])

prop("C07", "The Duquenne-Guigues basis is exactly the set of pseudo-intents",
 "For every context, the computed implication basis (batch with either closure, the iterator, the property on the context, and the general functions given any closure operator) contains, for each pseudo-intent of the context, exactly one implication from it to its closure, and nothing else; it is therefore sound, complete and of minimal size. "
 "The iterator, consumed fully or step by step, hands out the same implications as the batch computation. "
 "Computing a basis does not change the context.",
 ["inputs"],
 "every context, including ones with no objects, no attributes, full or repeated rows, and any order of attributes",
 "One airline context is compared fully and a random context only by count; wrong premises or conclusions of the right number, and rare shapes, go unnoticed.",
 ["fca/algorithms/dg_basis.py", "fca/algorithms/closure_operators.py", "fca/context.py"],
 [("optimised next-closure enumeration", "fca/algorithms/dg_basis.py generalized_compute_dg_basis, generalized_dg_basis_iter")],
 observe=["compute_dg_basis", "compute_dg_basis_simple", "dg_basis_iter_simple", "Context.attribute_implications", "Context.attribute_implications_iter()"])

prop("C08", "A basis relative to background knowledge completes it exactly",
 "For every context and every list of background implications that hold in it, the relative basis contains, for each set closed under the background that is pseudo-closed relative to it, exactly the implication to its closure: no member follows from the background and the other members, and background plus basis entail precisely the implications of the context. "
 "With a condition on premises every reported implication still holds, is not entailed by the background alone and has a premise satisfying the condition. "
 "The background list itself is never changed.",
 ["inputs", "configurations"],
 "every context, every list of implications valid in it (with repetitions and redundant members), every condition on premises",
 "Tests use two contexts with one background implication each and compare only counts.",
 ["fca/algorithms/dg_basis.py", "fca/context.py"],
 [("closing candidates under background and basis", "fca/algorithms/dg_basis.py generalized_compute_dg_basis(imp_basis=, cond=)"), ("confirmed/cond parameters", "fca/context.py get_attribute_implications")],
 observe=["compute_dg_basis(imp_basis=)", "compute_dg_basis_simple(imp_basis=)", "dg_basis_iter_simple(imp_basis=)", "Context.get_attribute_implications(confirmed=, cond=)"])

prop("C09", "The attribute-incremental algorithm computes the same canonical basis",
 "For every context and every order of its attributes, the attribute-incremental computation of the canonical basis returns exactly the Duquenne-Guigues basis: one implication per pseudo-intent, leading to its closure, without repetition. "
 "It leaves the context unchanged.",
 ["inputs"],
 "every context and every ordering of its attributes, with any number of objects including none",
 "Tests compare only the number of implications and closures of two-element sets with the other algorithm on one random context; rare orderings of intermediate pseudo-intents are not reached.",
 ["fca/algorithms/aibasis.py", "fca/context.py"],
 [("attribute-incremental update of concepts and pseudo-intents", "fca/algorithms/aibasis.py update_preclosed and helpers"), ("processing order compatible with inclusion", "fca/algorithms/aibasis.py sorting of modified elements")],
 observe=["Context.get_attribute_canonical_basis()", "compute_canonical_basis"])

prop("C10", "Analyses are pure and always reflect the current context",
 "In any interleaving of edits and analyses (intents, extents, closures, concepts, attribute and object implication bases, also when an analysis fails half-way, or an iterator is abandoned or resumed while its context is as it was), every answer equals the answer a freshly built copy of the current context gives. "
 "No analysis changes the context or any other context, and results handed out earlier do not change when the context is edited later. "
 "In particular the object implications are always the canonical basis of the current transposed context.",
 ["histories"],
 "every finite history of edits, analyses, failing analyses and partially consumed iterators over one or several contexts",
 "Each test runs one analysis on a fresh context; per-instance memoisation and cached bases are only visible in histories that mix analyses and edits.",
 ["fca/context.py"],
 [("temporary memoisation around basis computations", "fca/context.py memo, basis_computation"), ("object implications", "fca/context.py get_object_implications")],
 [("instance-level memo tables", "rows/columns remembered during a basis computation", "Context.get_object_intent_by_index (instance attribute)")],
 ["all read operations of Context"])

prop("C11", "Object-incremental implication covers are sound, complete and minimisable",
 "For every context, the object-incremental implication cover entails exactly the implications that hold in the context. "
 "Minimising any list of implications in place leaves an equivalent list in which no implication follows from the others.",
 ["inputs"],
 "every context and every list of implications",
 "There is no test of this module.",
 ["fca/algorithms/implication_covers.py"],
 [("one update per object", "fca/algorithms/implication_covers.py updated_basis"), ("minimisation", "fca/algorithms/implication_covers.py minimize")],
 observe=["compute_implication_cover", "minimize", "is_redundant"])

prop("C12", "Implications have set semantics for truth, equality, hashing and parsing",
 "An implication is respected by a set exactly if the set lacks part of the premise or contains the whole conclusion; by a partial example (certain, possible) exactly if the conclusion is possible or the premise is not certain; a negative implication exactly if premise and any conclusion element do not occur together. "
 "Two implications are equal exactly if their premises agree and their conclusions agree apart from the premise; equal implications hash alike, and a one-element implication equals its unit form. "
 "The stored sets are independent of the arguments and of copies, and the printed form of an implication with non-empty sides and plain names parses back to an equal implication.",
 ["inputs"],
 "all finite premises, conclusions and examples over string or integer attributes, in any insertion order",
 "One test compares one unit implication; truth, equality and hashing are relied upon by every set or dictionary of implications.",
 ["fca/implication.py"],
 [("truth", "fca/implication.py Implication.is_respected, NegativeImplication.is_respected"), ("equality and hash", "fca/implication.py __eq__, __hash__, __repr__"), ("parsing", "fca/implication.py str2imp")],
 observe=["Implication", "UnitImplication", "NegativeImplication"])

prop("C13", "Context constructions return the exact derived context and keep the original",
 "For contexts with string names, transposition, complement, compound, sub-context extraction (by attributes, or by objects having all or at least one of given attributes), removal of empty objects, deep copy and the Boolean product return contexts with exactly the defined objects, attributes and incidences in the defined order, and all but the removal of empty objects leave their operands unchanged and independent of the result. "
 "Products of non-matching contexts and unknown attributes are refused. "
 "Random contexts have the requested size, the names g0, g1, … and m0, m1, …, no cross at density 0 and every cross at density 1. Two contexts compare equal exactly if they have the same object names, attribute names and incidences, regardless of the order of rows and columns.",
 ["inputs", "histories"],
 "every pair of contexts of any shape (also without objects or attributes) and any later edit of operand or result",
 "Tests check one product and one equality; derived contexts of other shapes, aliasing and refusals are not tested.",
 ["fca/context.py"],
 [("constructions", "fca/context.py transpose, complementary, compound, extract_subcontext*, remove_empty_objects, __deepcopy__, __mul__"), ("equality", "fca/context.py __eq__")],
 observe=["objects, attributes, incidences of results and operands"])

prop("C14", "Clarifying and reducing keep the concept lattice and leave nothing reducible",
 "Clarifying objects keeps exactly one object for each distinct row. "
 "Reducing objects (attributes) keeps exactly one representative for each row (column) that is not the intersection of strictly larger rows (columns), where a full row (column) counts as not reducible; kept objects and attributes carry their original incidences, the concept lattice is unchanged up to isomorphism except for the convention on full rows, and the original context is not modified. "
 "This holds for any number of attributes and objects.",
 ["inputs"],
 "every context, of any width and height (including more than 63 attributes or objects)",
 "Reduction is only used inside factorisation tests; a wrong reduction still factorises. Widths beyond machine words are never checked.",
 ["fca/context.py"],
 [("rows as integers", "fca/context.py list2int, reduce_objects"), ("duality", "fca/context.py reduce_attributes"), ("clarification", "fca/context.py clarify_objects")],
 observe=["clarify_objects()", "reduce_objects()", "reduce_attributes()"])

prop("C15", "Basic exploration never loses, contradicts or misreports knowledge",
 "In every history of confirmations, counterexamples, additions and edits of objects and attributes, the context always respects every confirmed attribute and object implication, and contains exactly the accepted objects and attributes (of names not in use before). "
 "After every accepted step the confirmed and open implications together entail exactly the implications of the context (for attributes, and dually for objects), and no open implication has already been confirmed. "
 "A counterexample that does not refute the implication, or data contradicting confirmed implications, is refused with an exception and changes nothing; the initial context handed in is never changed.",
 ["histories"],
 "every initial context and every finite sequence of accepted and refused expert actions with fresh object and attribute names",
 "There is no test of this class; the guarantee is an invariant over histories.",
 ["fca/algorithms/exploration.py", "fca/context.py"],
 [("conflict checks", "fca/algorithms/exploration.py check_intent_for_conflicts, check_extent_for_conflicts"), ("recomputation", "fca/algorithms/exploration.py recompute_basis")],
 [("context, open and confirmed implications", "state of the exploration", "BasicExploration")],
 ["BasicExploration.context", "attribute_implications", "confirmed_attribute_implications", "object_implications", "confirmed_object_implications"])

prop("C16", "The exploration database keeps open implications exact and edits atomic",
 "In every history of confirming and unconfirming implications that hold in the context, adding, editing and deleting examples, and adding, renaming and deleting attributes that no background implication mentions, the open implications are exactly the basis of the current context relative to the current background, and every example respects the background. "
 "A refused single operation (counterexample that is none, example contradicting the background, name already in use) raises and changes neither context, background nor open implications. "
 "With an expert that always confirms valid and refutes invalid implications the exploration ends, and then the background entails exactly the implications of the expert's domain.",
 ["histories"],
 "every initial context, background, condition-free database, every finite sequence of operations on attributes not mentioned in the background, every expert domain",
 "Tests follow one confirmation, one rejection and one expert on one context; invariants must hold for all sequences, including refused operations.",
 ["fca/algorithms/exploration_/exploration.py", "fca/algorithms/dg_basis.py"],
 [("recomputation after every change", "fca/algorithms/exploration_/exploration.py context_modifier, base_modifier"), ("background check", "fca/algorithms/exploration_/exploration.py _check_intents"), ("expert protocol", "fca/algorithms/exploration_/exploration.py AttributeExploration")],
 [("context, background, open implications", "state", "ExplorationDB")],
 ["ExplorationDB.open_implications", "base", "objects", "attributes", "AttributeExploration.get_open_implications()"])

prop("C17", "Exploration sessions admit only consistent counterexamples",
 "In every history of a session in which implications holding in its context are accepted, the candidates are exactly the basis of the session's context relative to the accepted implications, and every object added during the session respects all implications accepted before it. "
 "A rejection is honoured only with an object that refutes the rejected implication and respects the accepted ones; otherwise it raises and nothing changes. "
 "Collections and sets handed out by the session are copies: changing them has no effect on the session.",
 ["histories"],
 "every initial context and every finite sequence of accepting, rejecting and adding, with valid and invalid counterexamples, and any modification of returned collections",
 "The tests only construct a session.",
 ["fca/algorithms/exploration2/exploration.py"],
 [("background check", "fca/algorithms/exploration2/exploration.py Basis.respect_background_knowledge, ExplorationContext.add_object"), ("counterexample check", "fca/algorithms/exploration2/exploration.py ExplorationSession.reject_implication")],
 [("context, accepted implications", "state", "ExplorationSession")],
 ["ExplorationSession.get_candidates()", "get_accepted_implications()", "context.objects", "context.get_intent()"])

prop("C18", "Partial contexts keep certain within possible and completion is exact",
 "A partial context can only be created or extended (by objects of new names) with certain incidences contained in possible ones, in every history. "
 "Completing it with implications makes each object's certain part its closure and removes from its possible part exactly those attributes whose addition would force something impossible; if some object admits no completion it raises and nothing changes; completing twice changes nothing more. "
 "The implications it reports are refuted by no partial object and their conclusions are maximal; if none are reported beyond the confirmed ones, every other implication is refuted by some object.",
 ["inputs", "histories"],
 "every pair of nested relations, every list of implications, every history of additions and completions, including exploration driven over partial contexts",
 "There is no test of partial contexts.",
 ["fca/partial_context.py", "fca/compare_context.py", "fca/algorithms/dg_basis.py", "fca/algorithms/exploration_/exploration.py"],
 [("subset check", "fca/compare_context.py subseteq_table, fca/partial_context.py add_object_with_intent"), ("completion", "fca/partial_context.py complete"), ("certain/possible closure", "fca/partial_context.py xq_aclosure, fca/algorithms/dg_basis.py compute_partial_dg_basis")],
 [("x_context, q_context", "certain and possible incidences", "PartialContext")],
 ["PartialContext.intents()", "xq_aclosure", "get_attribute_implications"])

prop("C19", "Factorisation covers the relation with formal concepts to the requested fidelity",
 "For every context and fidelity, each factor handed out is a formal concept of the context covering at least one incidence no earlier factor covered, and its reported share is exactly the newly covered fraction; factors stop at the first point where the covered fraction reaches the fidelity (a context without incidences has no factors). "
 "At every step the factor results from greedily adding attributes that cover the most uncovered incidences. "
 "The factor contexts built from a list of concepts hold exactly their extents and intents, and with full fidelity their Boolean product is the original relation.",
 ["inputs", "configurations"],
 "every context, every fidelity in [0,1], every order in which ties are broken",
 "Tests check counts on three fixed contexts and the product on a random one; shares, greediness, stopping and partial fidelity are not checked.",
 ["fca/algorithms/factors.py", "fca/context.py"],
 [("greedy search", "fca/algorithms/factors.py algorithm2"), ("factor contexts", "fca/algorithms/factors.py make_factor_cxts")],
 [("U", "uncovered incidences", "algorithm2")],
 ["algorithm2", "make_factor_cxts"])

prop("C20", "Weighted and conditional factorisation respect their conditions",
 "Every factor of the conditional factorisation is a formal concept of the context with at least the required number of objects and attributes (and, if requested, at least as many objects as attributes), its reported coverage never decreases, never exceeds one and grows by at least its share, and generation always terminates. "
 "Without repetitions, each factor is built from at least one attribute and one object that occur together and were not part of an earlier factor. "
 "With conditions that every concept having an incidence meets (a minimum of at most one, no demanded shape, repetitions allowed) it is a greedy factorisation like the unconditional one and reaches the fidelity. "
 "The weighted factorisation hands out formal concepts, each covering something new, until the fidelity is reached.",
 ["inputs", "configurations"],
 "every context, fidelity, minimum size, repetition and shape option",
 "Tests only check that the number of factors is positive or zero on three contexts.",
 ["fca/algorithms/factors.py"],
 [("conditional greedy search", "fca/algorithms/factors.py algorithm2_w_condition"), ("weighted search", "fca/algorithms/factors.py algorithm2_weighted")],
 observe=["algorithm2_w_condition", "algorithm2_weighted"])

prop("C21", "Writing a context to a cxt file and reading it back loses nothing",
 "For every context whose names are strings without line breaks and surrounding blanks that are not Python literals, or are integers, writing it as cxt and reading it back gives the same objects, attributes (same order) and incidences, for any name including names of Python functions or of the reader's own variables. "
 "The file has the documented Burmeister layout: header, both counts, names one per line, one row of X and . per object; "
 "a file without the header is refused, and both variants of writer and reader agree.",
 ["inputs"],
 "all contexts including those without objects or attributes, all such names",
 "Only three fixed files with plain names are read in tests and nothing is ever written.",
 ["fca/readwrite/cxt.py"],
 [("writer", "fca/readwrite/cxt.py write_cxt, uwrite_cxt"), ("reader", "fca/readwrite/cxt.py read_cxt, uread_cxt")],
 observe=["file contents", "contexts read"])

prop("C22", "Tab- and comma-separated files are read and written faithfully",
 "Reading a well-formed tab-separated binary table (with or without object names), tab-separated many-valued table or comma-separated table (many-valued or binary) gives exactly the names, order and values (as strings) in the file, whatever the names are (including '0' and '1', but without separators, line breaks, quotes or surrounding blanks), and writing a many-valued context and reading it back returns it with the texts of its values. "
 "The FIMI export lists for each object, in order, exactly the attributes it has.",
 ["inputs"],
 "all tables with at least one object whose cells and names contain no separators or line breaks, with or without a trailing separator in the header",
 "The doctests that read files do not run; no test reads or writes these formats.",
 ["fca/readwrite/tab_separated.py", "fca/readwrite/comma_separated.py", "fca/readwrite/fimi.py", "fca/mvcontext.py"],
 [("readers", "fca/readwrite/tab_separated.py, comma_separated.py"), ("writers", "write_mv_txt, uwrite_mv_txt, write_fimi"), ("many-valued table", "fca/mvcontext.py")],
 observe=["file contents", "contexts read"])

prop("C23", "Concept systems survive an XML round trip",
 "Writing any concept system (a lattice or an arbitrary list of concepts) to XML and reading it back gives the same concepts in the same order, with the same extents, intents and numeric annotations (named by letters, digits and inner blanks), for all names legal in XML without surrounding blanks or line breaks, including XML special and non-ASCII characters. "
 "Reading is independent of files read before.",
 ["inputs", "histories"],
 "all concept systems with string names, all numeric annotations whose names have no underscores, any sequence of writes and reads",
 "No test touches XML; the module has never worked under Python 3.",
 ["fca/readwrite/xml_.py", "fca/concept_system.py"],
 [("writer", "fca/readwrite/xml_.py write_xml"), ("event-driven reader with module-level state", "fca/readwrite/xml_.py read_xml, uread_xml")],
 observe=["concept systems read"])

prop("C24", "Diagram files draw exactly the lattice with reduced labelling",
 "For every concept lattice or system over string names free of quotes and backslashes the dot file contains one node per concept and exactly one edge per pair of a concept and its upper cover. "
 "Each object labels exactly the least concept, and each attribute the greatest concept, containing it (in a concept system that holds only some concepts of a lattice: the minimal, respectively maximal, ones among them) - or the number of such labels where labels are abbreviated (five or more in the plain writer; always, unless full output is requested, in the unicode writer, which shows at most six). "
 "Writing does not change the concepts, and an empty file name is refused.",
 ["inputs"],
 "every concept lattice with string names free of quotes and backslashes, and every concept system made of some of its concepts in any order",
 "The only doctest checks the empty file name and does not run.",
 ["fca/readwrite/dot.py", "fca/algorithms/norris.py"],
 [("reduced labelling", "fca/readwrite/dot.py find_own_objects, find_own_attributes"), ("edges from the covering relation", "fca/readwrite/dot.py write_dot, uwrite_dot")],
 observe=["parsed dot file"])

prop("C25", "Interest indices equal their definitions and filters keep the best concepts",
 "For every concept lattice each index equals its definition: extensional and intensional stability as the fraction of subsets generating the concept, separation as covered area over the incidences in its rows or columns, each counted once (one for empty area), relative extent and intent size, and the probability of the intent being closed for independent attributes. "
 "Filtering returns members only: by value exactly those reaching the threshold, by absolute number that many with no better concept left out, by part at least the given share (rounded down) and never a worse concept while a better one is left out. "
 "The indices and filter modes offered by name are these. Storing indices in the concepts records exactly these values under the given names, keeps earlier ones and disturbs nothing else.",
 ["inputs", "configurations"],
 "every lattice of a context with at least one object and attribute, every index, threshold, count and share, any order of storing several indices",
 "No test computes an index or filters.",
 ["fca/algorithms/filtering/stability.py", "fca/algorithms/filtering/separation.py", "fca/algorithms/filtering/probability.py", "fca/algorithms/filtering/extentsize.py", "fca/algorithms/filtering/intentsize.py", "fca/algorithms/filtering/filter.py"],
 [("inclusion-exclusion along the order", "stability.py"), ("threshold and sorting", "filter.py filter_concepts, compute_index")],
 observe=["compute_istability", "compute_estability", "compute_separation_index", "compute_probability", "compute_extent_size", "compute_intent_size", "filter_concepts", "compute_index"])

prop("C26", "Scaling a many-valued context applies each scale to each value exactly",
 "A many-valued context stores and returns the given values (finite numbers, or texts without quotes and backslashes) unchanged, and sub-contexts extracted from it by attributes, condition or values contain exactly the selected columns or objects. "
 "The scaled context has the same objects, one attribute per pair of attribute and scale attribute named 'attribute:scale attribute' in order, and an incidence exactly if some scale object whose condition holds for the value has that scale attribute. "
 "A nominal scale distinguishes exactly the values occurring in its column, and an ordinal scale is the full chain between its whole-number bounds in the requested direction.",
 ["inputs"],
 "all many-valued contexts with numeric or string values, all scales whose objects are conditions on the value",
 "No test scales anything; the doctest does not run.",
 ["fca/algorithms/scaling.py", "fca/scale.py", "fca/mvcontext.py"],
 [("scaling", "fca/algorithms/scaling.py scale_mvcontext"), ("scales", "fca/scale.py NominalScale, OrdinalScale"), ("values", "fca/mvcontext.py")],
 observe=["scale_mvcontext", "ManyValuedContext", "NominalScale", "OrdinalScale"])

prop("C27", "Confirmed patterns always occur positively and never negatively",
 "In every history of a pattern exploration, a pattern is confirmed exactly if some positive and no negative example has all its attributes, and stays so: examples are added to exactly the requested side, a negative example that lacks part of the pattern it is given for or contains a confirmed pattern is refused without effect, and the initial contexts are never changed. "
 "The examples reported for a pattern are exactly the positive objects having it, the unexplained ones exactly the positive objects containing no confirmed pattern. "
 "The patterns generated are the intents of the attribute-reduced positive context that no negative example has, and the unconfirmed ones are listed with the number of unexplained examples they cover, most first.",
 ["histories"],
 "every pair of contexts over the same attributes (in any order) and every finite sequence of confirmations, additions and queries, accepted or refused",
 "There is no test of this module.",
 ["fca/algorithms/patterns.py"],
 [("pattern checks", "fca/algorithms/patterns.py confirm_pattern, add_negative_example"), ("explanation", "fca/algorithms/patterns.py is_explained, iterate_unexplained_examples, get_unconfirmed_patterns_with_examples")],
 [("positive and negative context, confirmed patterns", "state", "BasicPatternExploration")],
 ["BasicPatternExploration"])

prop("C28", "Many-valued contexts keep every value through edits and copies",
 "After any sequence of adding, deleting and renaming objects and attributes, a many-valued context holds exactly the objects, attributes (in order) and values (numbers, texts) that the same edits applied to the mathematical table give; clashing names are renamed as in binary contexts, and an edit that is refused (unknown name, wrong number of values) raises and leaves the context as it was. "
 "Deep copies, transpositions and sub-contexts (by attributes, by condition, by values) are many-valued contexts with exactly the selected values, independent of the original, of each other and of the lists handed in by the caller.",
 ["histories"],
 "every many-valued context (also without objects or attributes), every finite sequence of edits, copies, transpositions and extractions over several of them, accepted or refused",
 "No test edits or copies a many-valued context.",
 ["fca/mvcontext.py", "fca/context.py"],
 [("edits of values", "fca/mvcontext.py add_object, add_attribute, delete_object, delete_attribute(s)"), ("renaming", "fca/context.py rename_object, rename_attribute, Context.__init__"), ("copies and sub-contexts", "fca/mvcontext.py __deepcopy__, transpose, extract_subcontext*; fca/context.py _extract_subtable*")],
 [("objects, attributes, values", "state", "ManyValuedContext._objects, _attributes, cross_table")],
 ["ManyValuedContext"])

prop("C29", "Printed forms show exactly the current content",
 "The printed form of a context (binary, many-valued, partial) lists its attributes in order and, for each object in order, exactly its crosses (question marks, values), after any edits; that of an implication lists its premise and what the conclusion adds, in ascending order, marked 'not' if it is negative; that of a concept lists both sides in ascending order (G and M standing for everything when the other side is empty); that of a concept system or lattice has one concept per line, in order; that of an exploration shows its context and the open and confirmed implications. "
 "Hence contexts over plain names print alike only if they are alike. Printing never changes anything and works for every content.",
 ["inputs", "histories"],
 "every content with pairwise comparable names, including no objects, no attributes, empty sides, and every state reached by edits and confirmations",
 "The expected texts in the doctests are of fixed small examples, and those doctests do not run.",
 ["fca/context.py", "fca/mvcontext.py", "fca/partial_context.py", "fca/concept.py", "fca/implication.py", "fca/concept_system.py", "fca/concept_lattice.py", "fca/algorithms/exploration.py"],
 [("texts", "__repr__ and __str__ of Context, ManyValuedContext, PartialContext, Concept, Implication, NegativeImplication, ConceptSystem, ConceptLattice, BasicExploration")],
 observe=["repr", "str"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
