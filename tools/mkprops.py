#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the statements live here, once)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("C01", "A script parses exactly when the grammar generates it",
  "For every LL(1) grammar a parser was built from and every script, parsing returns success exactly when the whole script, to its last character, is a sentence of the grammar from its start rule, and otherwise returns an error. Parsing never panics or hangs, whatever characters the script contains (nesting is limited by the thread's stack).",
  ["programs", "inputs"], "every LL(1) grammar, every script (any Unicode text, sentence or not)",
  "The tests parse eight hand-written grammars with one script each, all but one of them sentences; nothing relates acceptance to the language of the grammar, and trailing or foreign input is never tried.",
  ["src/script_parser.rs", "src/steuer_map.rs", "src/first_sets.rs", "src/follow_sets.rs"],
  [("table-driven descent", "src/script_parser.rs parse/parse_production/parse_terminal")],
  [("lookahead tables", "which alternative each next character selects", "src/script_parser.rs Parser.rules_with_steuermaps")],
  ["result of Parser::parse"])
p("C02", "An accepted script yields exactly its derivation tree",
  "When a script is accepted, the returned tree is the script's derivation: one root for the start rule, one node per rule application, one leaf per matched terminal, children in grammar order and nothing else. Leaves carry the terminal's text, so reading them left to right gives back the script; rule nodes carry empty text, and a rule matched by its empty alternative is a node without children.",
  ["programs", "inputs"], "every LL(1) grammar and every sentence of it",
  "Three tests look at one path each in a tree of at most five nodes; order, completeness and absence of extra nodes are never checked.",
  ["src/script_parser.rs", "src/tree.rs"],
  [("node per production, leaf per terminal", "src/script_parser.rs parse_production"), ("sibling/parent links", "src/tree.rs add_node")],
  observe=["tree returned by Parser::parse"])
p("C03", "A rejected script is reported at its first offending character",
  "For every LL(1) grammar in which every rule derives some text: when a script is rejected by parsing, the error reports a position, counted in characters from zero, that is the length of the longest prefix of the script which some text of the grammar can begin with. If the script continues there the error is an unexpected-character error naming exactly the character at that position; if the script ends there, the position is the script's length.",
  ["programs", "inputs"], "every LL(1) grammar and every script that is not a sentence",
  "One test checks one position (5) for one grammar; multi-byte characters, mid-terminal mismatches, premature ends and errors after optional parts are not tried.",
  ["src/script_parser.rs", "src/peekables.rs"],
  [("position counting", "src/peekables.rs ParseProcess"), ("error construction", "src/script_parser.rs get_fitting_production/parse_terminal")],
  observe=["ParserError returned by Parser::parse"])
p("C04", "A parser is built exactly from the LL(1) grammars",
  "A parser can be built from a grammar exactly when the start rule exists, every referenced rule is defined, no rule is left-recursive (even through parts that can be empty), and in every rule the next character or end of input never selects two alternatives (standard FIRST/FOLLOW predict sets). Every other grammar is refused when the parser is built, so no parser ever makes an arbitrary choice; building always terminates.",
  ["programs"], "every grammar, LL(1) or not",
  "Tests only build grammars that are LL(1); no refusal (conflict, undefined rule, recursion) is tested, nor that every LL(1) grammar is admitted.",
  ["src/steuer_map.rs", "src/first_sets.rs", "src/follow_sets.rs", "src/script_parser.rs"],
  [("conflict detection", "src/steuer_map.rs fill_with_steuer_set"), ("FIRST recursion", "src/first_sets.rs"), ("undefined rule detection", "src/first_sets.rs, src/follow_sets.rs")],
  observe=["Parser::new_from_text (panic = refusal), get_first_sets/get_follow_sets/get_steuermaps results"])
p("C05", "FIRST sets are exact",
  "For every grammar without left recursion, the FIRST set computed for each rule is the standard (least) one: exactly the characters that can begin text derived from the rule, plus the empty marker exactly when the rule can derive the empty text. The FIRST set of every non-empty sequence of elements is likewise exact.",
  ["programs"], "every grammar without left recursion; every element sequence over it",
  "Five fixed grammars are checked; chains of optional elements, rule order and empty terminals are not varied.",
  ["src/first_sets.rs"], [("memoised recursion", "src/first_sets.rs get_set_first_set_of_element"), ("sequence FIRST", "src/first_sets.rs first_set_of_partial")],
  observe=["get_first_sets, first_set_of_partial"])
p("C06", "FOLLOW sets are exact",
  "For every grammar without left recursion, the FOLLOW set computed for each rule is the standard (least) one: a character is in it exactly when the rules let that character come directly after the rule, and the end-of-input marker exactly when the rule can come last in a derivation from the start rule.",
  ["programs", "configurations"], "every grammar without left recursion, every choice of start rule",
  "Four fixed grammars; propagation through chains of rule endings, cycles and nullable tails of more than one step is not varied.",
  ["src/follow_sets.rs", "src/named_graph.rs", "src/simple_graph.rs"],
  [("propagation graph", "src/follow_sets.rs graph_marking_for_rightside_elements"), ("fixpoint", "src/follow_sets.rs make_follow_sets_from_marked_graph")],
  observe=["get_follow_sets"])
p("C07", "Lookahead tables hold exactly the predict sets",
  "For every LL(1) grammar, the table of each rule maps each character or end-of-input to the alternative whose predict set contains it (what can begin the alternative, plus what can follow the rule when the alternative can be empty) and has no other entry. The steuer set of each rule is its FIRST set without the empty marker, together with its FOLLOW set exactly when the rule can be empty.",
  ["programs"], "every LL(1) grammar, every rule, every lookahead",
  "Tests call the table construction only to see that it does not fail (the one test comparing entries is commented out); steuer sets are compared for three grammars.",
  ["src/steuer_map.rs", "src/steuer_sets.rs"],
  [("table filling", "src/steuer_map.rs steuermap_of_production"), ("steuer sets", "src/steuer_sets.rs get_steuer_sets")],
  observe=["get_steuer_sets, get_steuermaps"])
p("C08", "VM actions run once per completed rule, bottom-up, on the finished node",
  "While parsing, the actions of a rule run exactly once for each completed application of that rule, in the order written, after all actions of the rules inside it and in left-to-right order, on the caller's state; rules without actions run nothing. Each action is given the tree node of that application with its whole subtree already in place, and when a script is rejected exactly the rules completed before the error have run.",
  ["programs", "inputs", "histories"], "every LL(1) grammar with any assignment of actions to rules, every script, accepted or not",
  "One test counts three executions of one action; order, node handed over, partial subtree contents and rejected scripts are not observed.",
  ["src/script_parser.rs", "src/vms.rs", "src/lib.rs"],
  [("post-order run", "src/script_parser.rs parse_production/run_instructions")],
  observe=["calls of VM::execute_instruction (tree, node, instruction, state)"])
p("C09", "A rule file means the grammar it spells, whatever its layout",
  "Reading a well-formed rule text yields exactly the grammar it spells: each rule with its alternatives and their elements in written order, terminals (any characters between the quotes, escapes kept verbatim) and rule references kept apart even when spelled alike, '#' as the empty alternative, and a rule stated twice collecting the alternatives of both. Whitespace and line breaks wherever tokens may be separated change nothing, and the same grammar built through the programmatic interface gives a parser with the same behaviour.",
  ["programs", "inputs"], "every grammar, every spelling and layout of it",
  "Tests read a dozen texts with fixed layout; layout variation, name clashes between terminals and rules, repeated rules and equivalence with programmatic construction are not covered.",
  ["src/rule_parsing.rs", "src/parser_data.rs", "src/parse_funcs.rs"],
  [("rule parser", "src/rule_parsing.rs parse_rule/parse_possible_productions/parse_element/parse_terminal"), ("merging", "src/rule_parsing.rs merge_rule")],
  observe=["RuleParser::parse_rules, ParserData, Parser::new_from_text vs new_from_parser_data"])
p("C10", "Malformed rule files are refused, never silently misread",
  "Reading rule text succeeds exactly when the whole text is a sequence of well-formed rules and directives: a missing name, arrow, element, quote, brace, bracket or semicolon, an empty alternative without '#', '#' next to other elements, a dangling '|' or text left after the last rule makes reading fail with an error. Reading any text terminates without a panic, and never succeeds by dropping part of it.",
  ["inputs"], "every text over the rule syntax",
  "Two should_panic tests try one malformed text each.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs"],
  [("error returns", "src/rule_parsing.rs")], observe=["RuleParser::parse_rules result"])
p("C11", "A rule's action text reaches the VM intact and once",
  "For each rule with a '{...}' section the VM is asked exactly once, with that rule's name and a reader that yields exactly the characters between the braces (leading whitespace not counted) and then ends, at the first '}' not directly preceded by a backslash, no matter whether the VM peeks or just reads. Rules without the section are not offered to the VM, reading of the rule file continues right after the section, an error from the VM or an unclosed section makes reading fail, and the bundled VMs that do not interpret the text (null, counting, simple stack) accept any section content.",
  ["inputs", "programs"], "every section content, every reading style of the VM",
  "Only empty sections and well-formed instruction lists are used by tests and examples; braces, escapes and peeking past them are not.",
  ["src/rule_parsing.rs", "src/peekables.rs", "src/vms.rs", "src/vms/counting_vm.rs", "src/vms/simple_stack_vm.rs"],
  [("nested reader", "src/rule_parsing.rs parse_instruction_section, src/peekables.rs check_allowed")],
  observe=["VM::parse_instructions calls"])
p("C12", "Ignorable rules are accepted between elements, nowhere else",
  "A rule for which an ignorable rule is in force (by '$IGNORE: name;' earlier in the file, or by its own '$[IGNORE:name]') behaves exactly like the same rule with a reference to the ignorable rule written between every two neighbouring elements of each alternative. Nothing is inserted before the first or after the last element, into the empty alternative, into rules the ignorable rule itself is made of, or into rules marked '$[IGNORE:#]'.",
  ["programs", "inputs"], "every grammar and every placement of ignore directives and overrides",
  "All ten tests of the directive fail at the pinned commit; the override is only used inside those.",
  ["src/rule_parsing.rs"],
  [("weaving", "src/rule_parsing.rs edit_rules/weave_in_ignorers"), ("derivability test", "src/rule_parsing.rs check_is_derivative"), ("override", "src/rule_parsing.rs parse_overrides")],
  observe=["ParserData after RuleParser::parse_rules, Parser::parse"])
p("C13", "A parser can be reused; parses do not influence each other",
  "The result of parsing a script (acceptance, error, tree, actions run) depends only on the grammar, the script and the VM state handed in, never on which scripts, accepted or rejected, the same parser parsed before. VM state is changed only by actions, so scripts parsed one after the other on one state act like their actions in sequence.",
  ["histories", "inputs"], "every sequence of parses on one parser, with shared or fresh VM states",
  "Every test parses exactly one script per parser.",
  ["src/script_parser.rs"], [("parse takes only immutable tables", "src/script_parser.rs Parser::parse")],
  observe=["results of consecutive Parser::parse calls"])
p("C14", "Grammar processing is deterministic",
  "Building a parser from the same grammar always gives the same outcome: the same FIRST, FOLLOW and steuer sets, the same tables, the same accept-or-refuse decision and the same parsing behaviour, independent of hash seeds, of internal iteration order, of the order in which rules are written and of the names of the rules (other than the start rule).",
  ["schedules", "programs"], "every grammar, every iteration order of the internal hash tables, every order and naming of its rules",
  "Hash iteration order is random per process; a test run sees one order per map.",
  ["src/follow_sets.rs", "src/first_sets.rs", "src/steuer_map.rs", "src/rule_parsing.rs"],
  [("order-free fixpoint", "src/follow_sets.rs make_follow_sets_from_marked_graph"), ("plan then edit", "src/rule_parsing.rs edit_rules")],
  observe=["all construction results under controlled iteration order"])
p("C15", "The tree container keeps structure and handles straight under any history",
  "After any sequence of node additions and branch removals, the tree contains exactly the nodes added and not removed, each with its data, under its parent, siblings in insertion order, and child, descendant and path queries answer accordingly. A handle is valid from the addition of its node until it or an ancestor is removed, never becomes valid again and never denotes another node, even when storage is reused: lookups, additions and removals through a dead handle, or one the tree never handed out, fail and change nothing.",
  ["histories"], "every history of additions (to any live or dead parent, or as a root) and removals",
  "Seven tests use at most two operations and trees of two nodes; reuse of freed storage with more than one node is never exercised.",
  ["src/tree.rs"], [("free list and per-node key", "src/tree.rs add_node/remove_branch/get_node")],
  [("free_node_indexes", "slots available for reuse", "src/tree.rs Tree")],
  ["Tree methods"])
p("C16", "Graph containers store exactly the edges that were added",
  "After any sequence of node, edge and subgraph additions, each node's outgoing edges are exactly those added, listed by descending edge id with distinct ids per node; an automatically numbered edge gets one more than the node's highest id (0 if none), and adding an edge under a taken id is refused and changes nothing. Lookup by id or id path finds exactly the target added under it, merging a graph keeps both graphs' structure, and the named variant addresses exactly the node registered under a name, refusing duplicates and unknown names or indices with an error.",
  ["histories"], "every history of additions and lookups, including on empty graphs",
  "Ten tests with at most four nodes; merging and the named wrapper are untested.",
  ["src/simple_graph.rs", "src/named_graph.rs"],
  [("ordered edge list", "src/simple_graph.rs add_edge/try_add_edge_with_id"), ("offsetting", "src/simple_graph.rs add_graph_at_node"), ("name map", "src/named_graph.rs")],
  observe=["Graph and GraphNamedNodes methods"])
p("C17", "A bounded reader never passes its stop character and never lies when peeking",
  "A reader over a character source yields the source's characters in order and ends at the source's end or at its stop character unless that is directly preceded by the escape character; at the stop every way of reading, peeking or conditional reading yields nothing and consumes nothing. Peeking, in any form and any number of times, changes nothing and shows exactly what the next read returns; a refused conditional read changes nothing; the position is the start position plus the number of characters consumed, also when readers are nested.",
  ["histories", "inputs"], "every input, every configuration of stop and escape character, every sequence of read and peek calls, nested or not",
  "The module has no tests.",
  ["src/peekables.rs"], [("stop check", "src/peekables.rs ParseProcess::check_allowed")],
  [("escape", "whether the last character consumed was the escape character", "src/peekables.rs ParseProcess")],
  ["ParseProcess methods"])
p("C18", "Lexical helpers consume exactly their token",
  "Each lexical helper (whitespace, digits, unsigned and signed number, symbol, name) consumes exactly the longest text of its kind at the current position and returns its exact value, leaving the reader right behind it. Whitespace and digits may be empty; for the others, if there is no such text the helper fails, naming the offending character and its position or the end of input at its position; a number too large for the type is an error, never a wrong value, and no helper panics.",
  ["inputs"], "every input text",
  "Tests cover ASCII numbers of up to three digits; the other helpers and Unicode input have no direct tests.",
  ["src/parse_funcs.rs"], [("character loops", "src/parse_funcs.rs")], observe=["parse_* results and reader state"])
p("C19", "Both stack machines execute every instruction by its definition",
  "From any machine state, each instruction of both stack machines changes stack, registers and error code exactly as defined: pops take the top, Add and Sub combine the popped value with the register (popped minus register), Pow multiplies the popped value by base to the register and adds the second register, pushes add one value, PushFromTree pushes the number in the current node's first child. A missing operand sets error 1, unreadable tree text sets error 2, a result that does not fit sets a non-zero error and pushes nothing (a power that does not fit may count as such a result even if the final sum would fit); no instruction sequence ever panics.",
  ["histories", "inputs"], "every instruction sequence from every reachable machine state",
  "Neither machine has a test.",
  ["src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs"], [("execute_instruction", "src/vms/stack_vm.rs, src/vms/simple_stack_vm.rs")],
  observe=["VM state after execute_instruction"])
p("C20", "The bundled calculator languages compute what their scripts say",
  "For both bundled calculator grammars with their stack machines, running a script of space-separated decimal numbers, '+', '-' and 'print' leaves on the stack exactly the result of evaluating it left to right as postfix arithmetic, with the error code zero when every operator had its operands and every value fits, and non-zero otherwise. No script panics, and printing shows the popped value.",
  ["inputs", "histories"], "every calculator script, also split over several parses on one state",
  "The examples run one script and nothing checks its result.",
  ["examples/stack_based_math.txt", "examples/simple_stack_based_math.txt", "examples/rust_defined_rules.rs", "src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs", "src/script_parser.rs"],
  [("digit folding actions", "examples/stack_based_math.txt"), ("name to instruction map", "src/vms/simple_stack_vm.rs parse_instructions")],
  observe=["VM state and standard output after Parser::parse"])
p("C21", "Stack-machine action text assembles to exactly the instructions written",
  "For the stack machine with textual instructions, an action section reads as exactly the listed instructions in order with their exact constants, wherever whitespace separates them after a semicolon or before a constant, unknown instruction names doing nothing. A missing semicolon or constant, a stray character or a constant that does not fit makes reading fail; nothing is silently dropped or altered.",
  ["inputs"], "every action text",
  "Only the example grammar exercises the assembler, and no test checks the instructions it yields.",
  ["src/vms/stack_vm.rs", "src/parse_funcs.rs"], [("parse_instructions", "src/vms/stack_vm.rs")],
  observe=["effect of the returned instructions, errors"])
p("C22", "The command-line tool's exit status tells whether the script parses",
  "The command-line program, given a rule file and a script file, exits with status zero exactly when the grammar can be built and the script is a sentence of it; in every other case, including unreadable files, missing arguments, refused grammars and rejected scripts, it exits with a non-zero status.",
  ["inputs", "configurations"], "every pair of rule file and script file",
  "The binary has no tests.",
  ["src/main.rs", "src/script_parser.rs"], [("main", "src/main.rs")], observe=["process exit status"])
p("C23", "Grammar elements are interned once and keep their identity",
  "In a grammar under construction, asking for an element with the same name and kind always gives the same index, different names or kinds give different indices, indices are handed out consecutively and never change, and every lookup by index, name or kind agrees. Productions added to a rule appear after the earlier ones in order, replacing a rule's productions leaves exactly the new ones, attaching instructions to a rule sets them and leaves its productions alone, and vice versa, and nothing affects other rules.",
  ["histories"], "every sequence of construction calls",
  "Construction calls are only exercised by the rule parser and one example, never checked as a history.",
  ["src/parser_data.rs"], [("element_verbose_map with element_data/element_types in step", "src/parser_data.rs get_or_add_element_key"), ("rule map", "src/parser_data.rs add_production/set_productions/add_instructions")],
  observe=["ParserData methods and fields"])
p("C24", "Parsing starts at the rule the parser was built for",
  "A parser can be built from a programmatic grammar for any start rule it is LL(1) for, and accepts exactly the sentences of that start rule, whatever the rule is called and whether or not another rule is called 'start'; a parser built from rule text starts at the rule named 'start', wherever in the text it stands.",
  ["programs", "configurations"], "every grammar and every choice of its start rule",
  "All tests and examples use a start rule called 'start'.",
  ["src/script_parser.rs"], [("start lookup", "src/script_parser.rs Parser::parse, new_from_parser_data")],
  observe=["Parser::new_from_parser_data then Parser::parse"])
p("C25", "A refused grammar is refused for a reason that holds",
  "When the table construction refuses a grammar, the error it returns is true of that grammar: a rule reported as left-recursive reaches itself without consuming anything, a rule reported as missing is the start rule or used somewhere and has no definition, and a reported lookahead conflict names a rule of which two alternatives really share the reported character (or the end of the input, shown as '#'). This holds for grammars read from text and for programmatic ones. Which of several faults is reported is open.",
  ["programs"], "every grammar that is not LL(1)",
  "No test looks at a refusal. Which rule and character are named depends on the interplay of recursion, FIRST, FOLLOW and table filling, and on hash iteration order.",
  ["src/first_sets.rs", "src/follow_sets.rs", "src/steuer_map.rs"],
  [("left recursion detection", "src/first_sets.rs get_set_first_set_of_element"), ("conflict report", "src/steuer_map.rs fill_with_steuer_set"), ("missing rules", "src/first_sets.rs, src/named_graph.rs")],
  observe=["GrammarError of get_first_sets, get_follow_sets, get_steuermaps"])
p("C26", "A malformed rule file is reported where it goes wrong",
  "When reading rule text fails, the error gives the place, in characters from the beginning of the text, where it goes wrong: the end of the longest prefix some continuation could make well-formed. An unexpected-character error names exactly the character standing there, an end-of-characters error the length of the text, an unknown-operation error the misspelt name and where it begins; an alternative faulty as a whole is placed at or directly behind the fault. Inside a stack-machine action section places are counted in the whole file too, the closing brace counting as the end of the section.",
  ["programs", "inputs"], "every malformed rule text",
  "No test looks at the position of an error in a rule file; positions run through nested readers, escapes and multi-byte characters.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs", "src/peekables.rs", "src/vms/stack_vm.rs"],
  [("position counting", "src/peekables.rs ParseProcess::consumed, new_nested"), ("error construction", "src/parse_funcs.rs, src/rule_parsing.rs")],
  observe=["ParserError returned by RuleParser::parse_rules"])
p("C27", "What actions change in the finished part of the tree stays, and no more",
  "Actions may edit the tree they are given: rewrite a node's text, add nodes below their own node or below nodes of earlier actions, remove any of these with everything below, or remove their own node. Exactly these edits are seen by later actions and are in the tree returned; everything the parser adds later goes where the grammar puts it, whatever was removed before; handles of nodes still there keep naming them and handles of removed nodes stay dead; and which scripts are accepted and which actions are run does not depend on such edits.",
  ["programs", "inputs", "histories"], "every LL(1) grammar, every script, every choice of such edits in the actions of its rules",
  "No test has an action that changes the tree; the parser keeps adding nodes to a tree whose slots are being freed and used again underneath it.",
  ["src/script_parser.rs", "src/tree.rs", "src/vms.rs"],
  [("nodes added around running actions", "src/script_parser.rs parse_production, run_instructions"), ("slot reuse", "src/tree.rs add_node, remove_branch")],
  observe=["the tree inside VM::execute_instruction and the one returned by Parser::parse"])
p("C28", "Each step of the rule reader takes exactly its construct",
  "parse_terminal, parse_element, parse_production, parse_possible_productions and parse_rule, given a reader that stands at the beginning of such a construct, return exactly what the construct spells and leave the reader directly behind it (behind a production, or behind whitespace that follows it), whatever comes next and wherever the reader ends; where no such construct stands they return an error. Rules read one by one with parse_rule are the rules written, each with the ignorable rule and the instructions it states, and parse_rules called after some rules were read this way reads exactly the rest. (What a step gives when an unfinished terminal follows other elements is open.)",
  ["inputs", "histories"], "every text, every place to stop reading by hand",
  "Tests read a handful of constructs and never look at where the reader is left; a step that takes a character too much goes unnoticed until something unusual follows.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs"],
  [("steps", "src/rule_parsing.rs parse_rule, parse_possible_productions, parse_production, parse_element, parse_terminal")],
  observe=["the values returned by these functions", "what the reader yields next"])

p("C29", "Errors and lookahead values say exactly what they carry",
  "A lookahead value made from a character is that character's, made from the missing next character it is the end marker; turned into one without the empty marker it stays what it is, and the empty marker itself is refused. As text a character's value is that character; shown, different values look different and a character's contains it. The message of an unexpected-character error contains the character, the position and the expectation, those of the other errors with a position, name, reason, node or rule index contain these, and errors differing in them read differently; wrapping a grammar or tree error keeps it. The expectation in an unexpected-character error names something that really could have come there: the symbol asked for, or for a rejected script a character (or the end) some text of the grammar continues with.",
  ["inputs"], "every character, every number and text an error can carry, every LL(1) grammar and rejected script",
  "No test looks at a message or an expectation, which are all a user of a rejected script or grammar is told.",
  ["src/sets.rs", "src/errors.rs", "src/tree.rs", "src/parse_funcs.rs", "src/script_parser.rs"],
  [("conversions", "src/sets.rs"), ("messages", "src/errors.rs, src/tree.rs Display"), ("expectations", "src/script_parser.rs get_fitting_production, parse_terminal; src/parse_funcs.rs parse_symbol")],
  observe=["Display of errors and set members", "the expected text of ParserError::UnexpectedCharError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
