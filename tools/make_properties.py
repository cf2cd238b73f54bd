#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the data lives here so that it can be edited comfortably)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)

FX = "The fixtures are a few dozen fixed files; "
props = [
P("C01", "Printed domains parse back to an equal domain",
  "Printing a domain yields PDDL text that the library's own domain parser accepts, and the domain obtained from it compares equal to the original. This holds for every combination of requirements, type hierarchy, constants, predicates, numeric functions, derived predicates and actions (typed or untyped, including 'either' types, empty or absent conditions and effects) that the supported PDDL language can express.",
  ["inputs"], "all domains expressible in the supported language",
  FX + "none has 'either' types on parameters or quantifiers, missing preconditions, repeated or nested arithmetic operands, or undeclared supertypes, and no name is varied.",
  ["pddl/core.py", "pddl/formatter.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/helpers/base.py", "pddl/parser/domain.py", "pddl/parser/grammar.lark"],
  [("Domain.__str__", "pddl/core.py"), ("print_typed_lists, print_predicates_with_types, print_function_skeleton", "pddl/formatter.py"), ("_typed_parameters", "pddl/helpers/base.py"), ("DomainTransformer", "pddl/parser/domain.py")],
  observe=["str(domain)", "DomainParser()(text)", "Domain.__eq__"]),
P("C02", "Printed problems parse back to an equal problem",
  "Printing a problem yields PDDL text that the library's own problem parser accepts, and the problem obtained from it compares equal to the original in name, domain name, requirements, objects, initial state, goal and metric. This holds for every object list, set of initial literals and numeric assignments, goal formula and metric expressible in the supported language.",
  ["inputs"], "all problems (without an attached domain) expressible in the supported language",
  FX + "their goals are almost all conjunctions of atoms, their metrics are almost all (minimize (total-cost)).",
  ["pddl/core.py", "pddl/formatter.py", "pddl/parser/problem.py", "pddl/logic/base.py", "pddl/logic/functions.py", "pddl/parser/grammar.lark"],
  [("Problem.__str__", "pddl/core.py"), ("print_constants / sort_and_print_collection", "pddl/formatter.py"), ("ProblemTransformer", "pddl/parser/problem.py")],
  observe=["str(problem)", "ProblemParser()(text)", "Problem.__eq__"]),
P("C03", "Plans survive printing and parsing unchanged",
  "The plan parser returns exactly the written steps, in the written order, each with its action name and its arguments in order, with nothing merged or dropped. Printing a plan yields text that parses back to an equal plan, and two plans are equal exactly when their step sequences are.",
  ["inputs"], "all plans: any number of steps, any number of arguments, any names, repetitions included",
  "One hand-written plan and a few fixture plans are parsed; only one equality is compared.",
  ["pddl/core.py", "pddl/parser/plan.py", "pddl/parser/grammar.lark"],
  [("Plan.__str__, Plan.__eq__", "pddl/core.py"), ("PlanTransformer.ground_action", "pddl/parser/plan.py")],
  observe=["PlanParser()(text)", "Plan.actions", "str(plan)"]),
P("C04", "Domain declarations are read exactly as written",
  "The parsed domain has exactly the name, requirements, types with their supertypes, constants with their types, predicate signatures and numeric function signatures written in the text, with parameters in the written order. In a typed list every item gets the type (or set of 'either' types) that follows its own group and items after the last group are untyped; a type, constant or object named twice in one list is rejected, and so is a variable repeated with a different type.",
  ["inputs"], "all declaration sections: any grouping of typed and untyped items, any names",
  "Tests compare the full result for three domains; grouping, order and duplicates are sampled with a handful of fixed names.",
  ["pddl/parser/domain.py", "pddl/parser/typed_list_parser.py", "pddl/parser/grammar.lark"],
  [("TypedListParser.parse_typed_list", "pddl/parser/typed_list_parser.py"), ("DomainTransformer.types/constants/predicates/functions", "pddl/parser/domain.py")],
  observe=["Domain.types", "Domain.constants", "Domain.predicates", "Domain.functions", "Domain.requirements"]),
P("C05", "Conditions and effects are read with the written structure",
  "Preconditions, effects and derived-predicate conditions are parsed into formulas with the same connectives, operators, operands and operand order as the text, up to flattening of nested conjunctions, disjunctions, sums or products and dropping of repeated operands in conjunctions and disjunctions. An absent condition or effect stays absent, an empty '()' means the empty conjunction, and terms of atoms keep their order.",
  ["inputs"], "all condition and effect expressions of the grammar, in preconditions, effects and derived predicates",
  FX + "they exercise few operator combinations and compare the result with an independent object in three cases only.",
  ["pddl/parser/domain.py", "pddl/logic/base.py", "pddl/logic/functions.py", "pddl/parser/grammar.lark"],
  [("DomainTransformer.gd*, effect, c_effect, p_effect, num_effect, f_exp", "pddl/parser/domain.py")],
  observe=["Action.precondition", "Action.effect", "DerivedPredicate.condition"]),
P("C06", "Each variable occurrence carries its innermost declaration's types",
  "In a parsed domain, every occurrence of a variable in an action's precondition or effect, or in a derived predicate's condition, has the type tags of the innermost enclosing declaration of that variable (quantifier, else action parameter or derived-predicate argument). A derived-predicate argument written without a type takes the types declared for that position in the predicate's declaration, and a variable that no enclosing declaration binds has no types.",
  ["inputs"], "all scopings: shadowing, nesting, several actions and derived predicates in any order",
  "Tests check a handful of fixed domains without shadowing inside actions and without actions preceding derived predicates.",
  ["pddl/parser/domain.py", "pddl/parser/_update_type_tags.py"],
  [("_constant_or_variable, action_parameters, gd_quantifiers, derived_predicates", "pddl/parser/domain.py"), ("update_type_tags", "pddl/parser/_update_type_tags.py")],
  state=[("_current_parameters_by_name", "parameters of the action being parsed", "pddl/parser/domain.py")],
  observe=["Term.type_tags in parsed formulas"]),
P("C07", "Problem text is read exactly as written",
  "The parsed problem has exactly the written name, domain name, requirements, objects with their types, initial literals, initial numeric values, goal formula and metric (direction and expression). Objects in initial literals are the declared objects; numbers are numbers, with the written value.",
  ["inputs"], "all problem texts of the grammar",
  FX + "only two problems are compared with an independently built object.",
  ["pddl/parser/problem.py", "pddl/parser/domain.py", "pddl/core.py", "pddl/parser/grammar.lark"],
  [("ProblemTransformer", "pddl/parser/problem.py")],
  observe=["Problem.objects", "Problem.init", "Problem.goal", "Problem.metric"]),
P("C08", "Logical connectives keep their truth-functional meaning",
  "Under every truth assignment of the atoms, a formula built with the conjunction, disjunction, negation and implication constructors or operators evaluates to the value those connectives prescribe for the operands given: simplification of nested, repeated, single or missing operands never changes the meaning. The same holds for the formula after instantiation with the identity and after printing and parsing.",
  ["inputs"], "all operand structures up to the bound and all truth assignments",
  "Tests build a few fixed conjunctions and compare them syntactically; no test evaluates a formula.",
  ["pddl/logic/base.py"],
  [("_simplify_monotone_op_operands, BinaryOpMetaclass", "pddl/logic/base.py"), ("Formula.__and__/__or__/__invert__/__rshift__", "pddl/logic/base.py")],
  observe=["And, Or, Not, Imply, operands"]),
P("C09", "Arithmetic expressions and comparisons keep their value",
  "For all values of the numeric fluents, a sum, product, difference or quotient built or parsed from given operands evaluates to the value those operands prescribe, and a numeric comparison or assignment keeps both of its sides: repeated operands are not merged and nested differences or quotients are not re-associated. This covers conditions, effects, initial values and metrics, and holds again after printing and parsing.",
  ["inputs"], "all operand structures up to the bound and all numeric values",
  "Tests use distinct atomic operands only, so merging and re-association never happen.",
  ["pddl/logic/functions.py", "pddl/logic/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/grammar.lark"],
  [("BinaryFunction and subclasses", "pddl/logic/functions.py"), ("f_exp / metric_f_exp", "pddl/parser/domain.py, pddl/parser/problem.py")],
  observe=["BinaryFunction.operands", "str", "Metric.expression"]),
P("C10", "Instantiation substitutes every free parameter and nothing else",
  "Instantiating an action with one term per parameter returns an action with the same name whose parameters are those terms and whose precondition and effect are the originals with every free occurrence of each parameter replaced simultaneously by its term. Occurrences bound by a quantifier, constants, names, numbers and the formula structure are unchanged; the original action is not modified, and a wrong number of terms is rejected. The same substitution property holds for instantiating a formula with a partial mapping.",
  ["inputs", "histories"], "all actions and formulas up to the bound, all mappings (repeated, permuted and partial ones included)",
  "Tests instantiate a few atoms and fixture plans whose actions have no quantifier or conditional effect, checking mostly that no '?' is printed.",
  ["pddl/action.py", "pddl/logic/base.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py"],
  [("Action.instantiate", "pddl/action.py"), ("*.instantiate", "pddl/logic")],
  observe=["Action.instantiate", "Formula.instantiate"]),
P("C11", "Plan checking and plan instantiation follow the action signatures",
  "Checking a plan against a domain and a problem succeeds exactly when every step names an action of the domain, has as many arguments as that action has parameters, and uses only objects of the problem or constants of the domain. Instantiating a plan gives, step by step and in order, the named action applied to the step's arguments, and rejects a step with an unknown action or the wrong number of arguments.",
  ["inputs"], "all plans, domains and problems up to the bound",
  "Tests have one failing plan for each of the three reasons and no systematic accept cases (first, middle or last step bad; constants; zero arguments).",
  ["pddl/core.py", "pddl/action.py"],
  [("Plan.check, Plan.instantiate", "pddl/core.py")],
  observe=["Plan.check", "Plan.instantiate"]),
P("C12", "A type hierarchy is accepted exactly when it is well-formed",
  "Creating a domain with given types succeeds exactly when the subtype relation has no cycle, 'object' has no supertype, and supertypes are used only if typing is among the requirements (directly or through :adl); otherwise a validation error is raised. An accepted hierarchy is stored as given.",
  ["inputs"], "all subtype maps over up to the bounded number of types, in every declaration order",
  "Tests try one 3-cycle, one chain and a few fixtures.",
  ["pddl/_validation.py", "pddl/helpers/base.py", "pddl/custom_types.py", "pddl/core.py"],
  [("Types._check_types_dictionary", "pddl/_validation.py"), ("find_cycle", "pddl/helpers/base.py")],
  observe=["Domain(...)", "Domain.types"]),
P("C13", "No domain uses an undeclared type",
  "Creating a domain fails with a validation error if a type that is neither declared, nor a declared supertype, nor 'object' is used by a constant, a predicate or function signature, a derived predicate (head or condition), or an action's parameters, precondition or effect, at any depth. It also fails if types are used anywhere there without the typing requirement (directly or through :adl), and it does not fail for type reasons otherwise.",
  ["inputs"], "all positions of a type tag in a domain, all formula shapes up to the bound",
  "Tests put a wrong type on one constant, one predicate, one action parameter and one derived predicate head.",
  ["pddl/_validation.py", "pddl/core.py"],
  [("TypeChecker.check_type", "pddl/_validation.py"), ("Domain._check_consistency", "pddl/core.py")],
  observe=["Domain(...)"]),
P("C14", "A problem is accepted against a domain exactly when it is consistent",
  "Checking a problem against a domain (on request, or at construction with a domain) succeeds exactly when the domain names agree up to letter case, the problem's requirements, if given, are among the domain's, and every type used by its objects, initial state and goal is available in the domain and allowed by the requirements. Attaching another domain to a problem gives the problem that domain's name and applies the other conditions. At construction, giving both a domain and a domain name or requirements demands that they agree, giving neither domain nor domain name is an error, and a non-literal initial formula is rejected.",
  ["inputs", "histories"], "all problem/domain pairs up to the bound",
  "Tests cover name mismatch and one requirement subset; wrong types in objects, initial state or goal are never tried.",
  ["pddl/core.py", "pddl/_validation.py"],
  [("Problem.check, Problem.__init__, domain setter", "pddl/core.py")],
  observe=["Problem(...)", "Problem.check", "Problem.domain"]),
P("C15", "Gated constructs parse only under their requirement",
  "Domain text that uses a disjunction or implication, a universal or existential condition, term equality, a nondeterministic effect, a subtype relation, or a numeric function other than total-cost is accepted only if the stated requirements contain the one that allows it, directly or through :adl, :quantified-preconditions or :fluents; and with such a requirement it is accepted. A problem that states requirements is gated in the same way for its goal, and a problem that states none is not gated.",
  ["configurations", "inputs"], "all combinations of stated requirements with each gated construct",
  "Tests cover a few fixed pairs of requirement and construct.",
  ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/requirements.py", "pddl/_validation.py"],
  [("gd_or, gd_imply, gd_quantifiers, atomic_formula_term, c_effect, types", "pddl/parser/domain.py"), ("_extend_domain_requirements", "pddl/requirements.py")],
  observe=["DomainParser()(text)", "ProblemParser()(text)"]),
P("C16", "A name is accepted exactly when it is a legal PDDL name",
  "Every constructor that takes a name (constants, variables, predicates, functions, actions, domains, problems, types) accepts a string exactly when it is a letter followed by letters, digits, hyphens or underscores and is not a reserved PDDL word, except that 'object' is a legal type and 'total-cost' a legal function. The accepted string is stored unchanged, and a legal name is read by the parsers as that same name.",
  ["inputs"], "all character strings up to the bound, for every kind of name",
  "Tests try the reserved words as types and a few fixed good names.",
  ["pddl/custom_types.py", "pddl/helpers/base.py", "pddl/parser/symbols.py", "pddl/parser/grammar.lark"],
  [("parse_name, parse_type, parse_function, name", "pddl/custom_types.py"), ("RegexConstrainedString", "pddl/helpers/base.py"), ("ALL_SYMBOLS", "pddl/parser/symbols.py")],
  observe=["Constant(...)", "Variable(...)", "Predicate(...)", "NumericFunction(...)", "Action(...)", "Domain(...)", "Problem(...)"]),
P("C17", "Equality is structural and hashing agrees with it",
  "Two terms, formulas, effects, functions, derived predicates or actions compare equal exactly when they are of the same kind and have equal corresponding parts (constants by name; variables by name and types; quantified variables as a set), and two domains, problems, plans or metrics exactly when all their parts are equal. Equality is reflexive, symmetric and transitive, and equal objects have equal hashes, so set and dictionary membership agree with equality.",
  ["inputs"], "all pairs and triples of objects up to the bound",
  "Tests compare identical copies only; unequal objects differing in one part, symmetry and hashes are not checked.",
  ["pddl/logic/base.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/action.py", "pddl/core.py", "pddl/helpers/cache_hash.py"],
  [("__eq__ / __hash__ of every class", "pddl/logic, pddl/action.py, pddl/core.py"), ("cache_hash", "pddl/helpers/cache_hash.py")],
  observe=["==", "hash()"]),
P("C18", "Ordering of terms, predicates, functions and requirements is total",
  "For terms, predicates, numeric functions, numeric values and requirements, '<' is a strict total order consistent with equality: exactly one of a<b, a==b, b<a holds, and a<b with b<c implies a<c. The other comparison operators agree with it, so sorting gives one well-defined result.",
  ["inputs"], "all triples of terms / predicates / functions / values / requirements up to the bound",
  "Tests order seven fixed terms; predicates, functions and requirements are never ordered.",
  ["pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/requirements.py"],
  [("__lt__ with functools.total_ordering", "pddl/logic/terms.py, pddl/logic/predicates.py, pddl/logic/functions.py, pddl/requirements.py")],
  observe=["<, <=, >, >=, sorted()"]),
P("C19", "Copies and pickles equal the original",
  "A shallow copy, a deep copy and an unpickled pickle of any term, formula, effect, action, domain, problem or plan compare equal to the original, print the same text and have the same hash when hashable, whether or not the original was hashed before. The original still equals itself and keeps its hash and text afterwards.",
  ["inputs", "histories"], "all objects up to the bound, hashed or not before copying",
  "Tests pickle and deep-copy three fixture domains and problems, never shallow-copy, and never compare hashes after.",
  ["pddl/helpers/cache_hash.py", "pddl/helpers/base.py", "pddl/logic", "pddl/core.py"],
  [("cache_hash: __getstate__/__setstate__/__hash__", "pddl/helpers/cache_hash.py")],
  observe=["copy.copy", "copy.deepcopy", "pickle.loads(pickle.dumps())"]),
P("C20", "Printed text depends only on the content, not on set order",
  "The text printed for a domain, problem, action, formula or effect is the same for objects built from the same parts regardless of the order in which unordered collections were given and of the iteration order of sets, so it is the same in every process and hash seed.",
  ["inputs", "schedules"], "all objects up to the bound and all iteration orders of every set involved",
  "Tests run under one fixed hash seed and parse the output back instead of comparing texts.",
  ["pddl/formatter.py", "pddl/core.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/helpers/base.py"],
  [("sort_and_print_collection, print_typed_lists, print_predicates_with_types", "pddl/formatter.py"), ("QuantifiedCondition.__str__", "pddl/logic/base.py"), ("Forall.__str__", "pddl/logic/effects.py")],
  observe=["str()"]),
P("C21", "A parser object carries nothing from one parse to the next",
  "The outcome of parsing a text, an equal object or a rejection, does not depend on what the same parser object parsed before, whether those parses succeeded or failed. Parsing, successful or not, leaves the interpreter-wide traceback setting as it found it.",
  ["histories", "inputs"], "all sequences of two or three parses of texts up to the bound with the same parser object",
  "Each test parses one text, or re-parses the printed form of the same domain, with a parser object.",
  ["pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py"],
  [("BaseParser.__call__, _call_parser", "pddl/parser/base.py"), ("transformer fields", "pddl/parser/domain.py, pddl/parser/problem.py")],
  state=[("_constants_by_name, _predicates_by_name, _requirements, _types, _current_parameters_by_name", "per-parse context of the domain transformer", "pddl/parser/domain.py"), ("_objects_by_name", "per-parse context of the problem transformer", "pddl/parser/problem.py"), ("sys.tracebacklimit", "interpreter-wide traceback depth", "pddl/parser/base.py")],
  observe=["DomainParser.__call__", "ProblemParser.__call__", "PlanParser.__call__", "sys.tracebacklimit"]),
P("C22", "Reading an object never changes it",
  "Printing, comparing, hashing, copying, checking or instantiating a domain, problem, plan, action or formula leaves that object, and the other objects involved, with the same content and the same printed text as before. Changing a list or set after it was passed to a constructor of a formula, action, domain or problem does not change the constructed object.",
  ["histories", "inputs"], "all sequences of read operations up to the bound on all objects up to the bound",
  "One regression test looks for a substring after instantiation; nothing else compares before and after.",
  ["pddl/core.py", "pddl/action.py", "pddl/formatter.py", "pddl/logic", "pddl/helpers/base.py"],
  [("ensure_set / ensure_sequence copies", "pddl/helpers/base.py"), ("instantiate builds new objects", "pddl/logic, pddl/action.py"), ("print_typed_lists works on a local dictionary", "pddl/formatter.py")],
  observe=["all public properties before and after"]),
P("C23", "Derived predicates conform to the declared predicate",
  "Domain text with a derived predicate is accepted exactly when its predicate is declared, the number of arguments agrees, and every typed argument has types that are subtypes (through any number of steps) of those declared for that position, where an undeclared position type or 'object' admits every type. Parsing always terminates with acceptance or an error.",
  ["inputs"], "all hierarchies, declarations and derived-predicate heads up to the bound",
  "Tests cover direct subtypes in a few fixed domains; a two-step subtype or an unrelated typed parent is never tried.",
  ["pddl/parser/domain.py"],
  [("derived_predicates, _check_subtypes", "pddl/parser/domain.py")],
  observe=["DomainParser()(text)", "Domain.derived_predicates"]),
P("C24", "Numeric functions and total-cost need their requirements",
  "Creating a domain with numeric functions succeeds exactly when, for every function other than total-cost, numeric fluents are allowed (directly or through :fluents), and for total-cost, action costs are. A domain without functions is never rejected for these reasons.",
  ["configurations", "inputs"], "all sets of functions up to the bound and all requirement sets",
  "Tests build three accepted domains; no rejection is tested.",
  ["pddl/_validation.py", "pddl/requirements.py", "pddl/core.py"],
  [("Functions._check_total_cost", "pddl/_validation.py"), ("_extend_domain_requirements", "pddl/requirements.py")],
  observe=["Domain(...)"]),
P("C25", "Whitespace, comments and keyword-like names never change the reading",
  "Adding or removing whitespace, line breaks or comments between the tokens of a domain, problem or plan text does not change the parse result, whatever a comment contains. A legal name that merely starts or ends with a reserved word, or contains one, is read as that whole name.",
  ["inputs"], "all comment contents and names as unbounded strings (regular languages), all token boundaries of the sample texts",
  FX + "comments and layout are fixed.",
  ["pddl/parser/grammar.lark", "pddl/parser/base.py"],
  [("%ignore COMMENT, NAME and keyword terminals", "pddl/parser/grammar.lark")],
  observe=["DomainParser()(text)", "ProblemParser()(text)", "PlanParser()(text)"]),
P("C26", "The command line agrees with the library",
  "The command-line tool with a domain file, optionally a problem file and a plan file, succeeds exactly when each file parses, the problem checks against the domain and the plan checks against both; it then prints the formatted domain, problem and plan in this order, or nothing in quiet mode. Otherwise it fails with a nonzero status.",
  ["inputs", "configurations"], "all combinations of valid and invalid domain, problem and plan files up to the bound, with and without quiet mode",
  "Tests run the tool on valid fixtures and on a few kinds of failure.",
  ["pddl/__main__.py", "pddl/__init__.py"],
  [("cli", "pddl/__main__.py"), ("parse_domain, parse_problem, parse_plan", "pddl/__init__.py")],
  observe=["exit status and standard output"]),
P("C27", "Only sentences of the supported grammar are accepted",
  "A domain, problem or plan parser returns an object only for a text whose whole sequence of words, from the first to the last, is a sentence of the documented PDDL 3.1 subset: every parenthesis is matched, every obligatory part is there, no part is repeated, in a wrong place or of a wrong kind (a keyword or other reserved word is not a name in a domain or problem, a number not a term, an effect not a condition), and nothing precedes or follows. Any other text is rejected with an exception.",
  ["inputs"], "all texts that come from a sentence through edits of neighbouring words (any words of the language or foreign ones put in, replaced or left out), repetition, omission and truncation, and all sequences of sections, up to the bound",
  "Only a handful of malformed texts are tried, each with one error of one kind.",
  ["pddl/parser/grammar.lark", "pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py"],
  [("grammar rules and the LALR parsers built from them", "pddl/parser/grammar.lark"), ("BaseParser.__call__", "pddl/parser/base.py"), ("transformer callbacks", "pddl/parser/domain.py, pddl/parser/problem.py, pddl/parser/plan.py")],
  observe=["DomainParser()(text)", "ProblemParser()(text)", "PlanParser()(text)"]),
P("C28", "Objects hold exactly the parts given to their constructors",
  "Every term, formula, effect, metric, action, domain, problem and plan built through its constructor returns exactly the given parts through its attributes: sequences in the given order, unordered collections as sets, absent collections as empty, an absent goal as the empty conjunction, operands up to the simplification of conjunctions, disjunctions, sums and products. A predicate or function applied to terms gives the same name with those terms, or an error if their number (for a function also a type) differs; a predicate in which one variable name has two sets of types, a variable with a repeated type in its list, and a metric that is neither minimized nor maximized are rejected.",
  ["inputs"], "all constructors, every way of passing a collection, any names and types up to the bound",
  "Tests build each kind of object once or twice from lists of fixed names and rarely look at more than one attribute.",
  ["pddl/core.py", "pddl/action.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/helpers.py", "pddl/helpers/base.py"],
  [("constructors and properties", "pddl/core.py, pddl/action.py, pddl/logic"), ("ensure_set, ensure_sequence, check_no_duplicates", "pddl/helpers/base.py"), ("Predicate.__call__, NumericFunction.__call__", "pddl/logic")],
  observe=["all public properties of constructed objects", "variables(), constants()"]),
P("C29", "Reading a file gives what its text gives",
  "parse_domain, parse_problem and parse_plan applied to a file give the object that a new parser gives for the file's text, or reject it with an error of the same kind, whatever path names the file (string or path object, absolute or relative, through a link), whichever line ends it has, and whatever other files, or the same file with other contents, were read before. The file and the current folder stay as they were; a file that is not there is an error.",
  ["inputs", "histories"], "all texts, names of files and sequences of readings, changes and renamings up to the bound",
  "Tests read each fixture once, by one kind of path, and never a file that changes.",
  ["pddl/__init__.py"],
  [("parse_domain, parse_problem, parse_plan", "pddl/__init__.py")],
  observe=["parse_domain(path)", "parse_problem(path)", "parse_plan(path)"]),
P("C30", "What is rejected is rejected with an error about the input",
  "A text that a domain or problem parser does not accept is rejected with a parse error of lark or a PDDLError, whatever is wrong with it (words, structure, names, types, repetitions, requirements, numbers); constructors, checks, attached domains and instantiations reject their arguments with a PDDLError or a ValueError. No input within the language of the library, however wrong, leads to an unrelated error from the inside. An error about a missing requirement names a requirement that is not stated, and stating it removes this error.",
  ["inputs"], "all texts that come from a sentence through edits of neighbouring words, all combinations of names in declarations and uses, formulas nested up to the bound",
  "Tests check the kind of error for a few dozen wrong texts only.",
  ["pddl/exceptions.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/typed_list_parser.py", "pddl/_validation.py", "pddl/core.py", "pddl/action.py", "pddl/parser/grammar.lark"],
  [("PDDLParsingError, PDDLMissingRequirementError, PDDLValidationError", "pddl/exceptions.py"), ("DomainTransformer, ProblemTransformer", "pddl/parser"), ("TypedListParser", "pddl/parser/typed_list_parser.py"), ("validate", "pddl/_validation.py")],
  observe=["the type of the exception from parsers, constructors, Problem.check, Plan.check, instantiate", "PDDLMissingRequirementError.requirement"]),
P("C31", "The order of declarations in a text does not matter",
  "Two texts that differ only in the order in which they list requirements, types, constants or objects, predicates, functions, actions and derived predicates, initial literals and assignments, alternatives of an 'either' type or variables of a quantifier, in how they group names of the same type, or in the repetition of a requirement or initial literal, are both accepted or both rejected, and give equal objects that are printed alike.",
  ["inputs"], "all texts up to the bound and all orders of their declarations (predicates that a derived predicate may refer to have different names)",
  "Each fixture lists its declarations in one order.",
  ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/typed_list_parser.py", "pddl/core.py", "pddl/formatter.py"],
  [("DomainTransformer.domain, types, constants, predicates, functions, derived_predicates", "pddl/parser/domain.py"), ("ProblemTransformer.init, objects", "pddl/parser/problem.py"), ("TypedListParser.parse_typed_list", "pddl/parser/typed_list_parser.py")],
  observe=["DomainParser()(text)", "ProblemParser()(text)", "==", "str"]),
P("C32", "A rejected operation leaves everything as it was",
  "An operation that raises an error leaves every object involved as it was: a problem that is given a domain which does not fit keeps its own domain, domain name and requirements and can be used as if nothing had happened; failing checks, instantiations, calls and comparisons change none of the domains, problems, plans, actions and formulas; a constructor that rejects its parts changes neither the parts nor the collections that hold them.",
  ["inputs", "histories"], "all failing operations on objects up to the bound",
  "Tests of failing operations look at the error only, never at the objects afterwards.",
  ["pddl/core.py", "pddl/action.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/base.py", "pddl/_validation.py", "pddl/helpers/base.py"],
  [("Problem.domain setter, Problem.check, Plan.check, Plan.instantiate", "pddl/core.py"), ("Action.instantiate", "pddl/action.py"), ("Predicate.__call__, NumericFunction.__call__", "pddl/logic")],
  observe=["attributes, text and hash of the objects after the error", "later operations on them"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
