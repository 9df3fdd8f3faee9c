#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC, ABC, UT = "ciscoconfparse/ciscoconfparse.py", "ciscoconfparse/ccp_abc.py", "ciscoconfparse/ccp_util.py"
MI, MN, MX, MA, MJ = ("ciscoconfparse/models_%s.py" % x for x in ("cisco", "nxos", "iosxr", "asa", "junos"))
ALL = [CC, ABC, UT, MI, MN, MX, MA, MJ]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Queries never modify the configuration or their operands",
     "Searching, matching, navigating, rendering, comparing or reading any derived attribute of a parsed configuration leaves it exactly as it was: the same line objects in the same order, with the same text, line numbers, comment/blank flags and parent/child links. "
     "Likewise, reading, comparing, hashing, testing membership in, or adding/subtracting address, port, range and interface values never alters any operand.",
     ["inputs", "histories"], "every configuration, every query method and property of every line model and value class, every argument, any interleaving of queries",
     "Tests call a query once and look at its result; none compares the whole object graph before and after each of ~900 accessors, and the mutation may only occur for one option combination.",
     ALL, [("find_* / re_search_* / lineage / rendering queries", CC), ("line-object matching and navigation", ABC), ("address, range and interface value classes", UT), ("model accessors", MI)],
     [("list of line objects", "the configuration", CC), ("text, linenum, parent, children", "one line", ABC)], ["public query methods and properties"])
prop("C02", "Separately built objects share no mutable state",
     "Nothing done to, parsed into or read from one configuration, line, range, address or interface object is ever visible through another, however many are created in one process and in whatever order. "
     "Results do not depend on what was parsed or looked up earlier in the process.",
     ["histories", "inputs"], "every sequence of constructions, edits and queries in one process",
     "Each test builds its own object and rarely interleaves two; leaks through class attributes, default arguments, module globals or caches only show on particular sequences.",
     ALL, [("instance attributes re-bound by every constructor", "ConfigList.__init__, BaseCfgLine.__init__, CiscoRange.__init__"), ("no mutable default arguments or module caches", "package")])
prop("C03", "Caller-supplied containers are never modified",
     "A list, dict or set passed to the library - configuration lines, search specifications, replacement maps, group dictionaries, interface dictionaries, address lists - is unchanged when the call returns or raises. "
     "Later edits made through the library do not change it either.",
     ["inputs", "histories"], "every public function or method taking a container, every argument value, and later edits of the resulting objects",
     "Tests pass literals and drop them, so in-place changes of an argument are invisible; many need a particular branch or option.",
     ALL, [("arguments are copied or only read", "public entry points")], observe=["arguments after the call"])
prop("C04", "Lists returned by searches are the caller's own",
     "Every list returned by a search, navigation or listing call is a new list: growing, shrinking, sorting or clearing it changes neither the configuration, nor any line's child list, nor the result of any other call.",
     ["inputs", "histories"], "every query returning a list, every option combination and every later modification of the result",
     "Tests only read results; an alias of an internal list becomes visible only when the caller edits the result, and often on one return path only.",
     [CC, ABC], [("fresh result lists in find_* / re_search_children / all_children / all_parents / lineage", CC)])
prop("C05", "Line numbers equal list positions after every edit",
     "After any completed insertion, deletion, append, replacement, reversal or sort on the list of configuration lines, and after every parse or commit, the line object at position i reports line number i.",
     ["histories", "inputs"], "every sequence of edits through the line-list and line-object interfaces, with either factory setting and any blank-line setting",
     "Tests check text after one edit; stale numbers only bite a later delete or insert that indexes by line number.",
     [CC, ABC], [("renumbering after mutation", "ConfigList.reassign_linenums and its callers"), ("numbering at parse", "ConfigList.bootstrap_obj_init_ng")],
     [("linenum", "index of the line in the list", ABC)])
prop("C06", "Commit and atomic edits re-parse the whole current text",
     "A commit, or an edit made with the atomic option, rebuilds the line objects from the current text of every line, in order, under the syntax, comment delimiters, factory and blank-line settings the configuration was created with. "
     "The atomic option of every edit method is honoured on every path on which that edit changed the configuration.",
     ["histories", "configurations"], "every edit method, every option combination, every parser setting",
     "Tests exercise commit with default settings; dropping one setting or one path (e.g. an early return) needs a specific combination.",
     [CC, ABC], [("commit / atomic", "CiscoConfParse.commit, CiscoConfParse.atomic"), ("bootstrap", "ConfigList.bootstrap_obj_init_ng")])
prop("C07", "Parsing keeps every line exactly once and in order",
     "Parsing a list of lines (in any syntax but junos, whose braces are converted first) turns each of them into exactly one line object with exactly that text apart from trailing white space, in the original order; a line may be dropped only if it is blank and the caller asked to ignore blank lines. "
     "Listing the configuration text returns those lines in that order.",
     ["inputs", "configurations"], "every list of lines, every parser setting, both factory settings",
     "Tests use a few fixture files; an off-by-one, an early exit or an extra filter only loses lines of a certain shape or position.",
     [CC], [("bootstrap loop", "ConfigList.bootstrap_obj_init_ng"), ("text listing", "CiscoConfParse.ioscfg / .text, ConfigList.ioscfg")])
prop("C08", "Parent and child links are recorded together",
     "Whenever a parse or an add-child operation makes one line the parent of a different line, that line is also placed in the parent's list of children on the same path, and a line is placed in a list of children only together with recording that parent. A line that gets another parent leaves the list of children of the one it had. "
     "Every new line starts as its own parent.",
     ["inputs"], "every configuration, including banners, macros and brace-style input",
     "Fixtures contain well-formed nesting; one-sided links appear only for particular structures (unterminated macro, nested banner).",
     [CC, ABC], [("linking", "ConfigList._add_child_to_parent, _banner_mark_regex, _macro_mark_children"), ("BaseCfgLine.add_child / add_parent", ABC)])
prop("C09", "Paired parent/child searches are exact complements",
     "A search for lines having a matching child and the search for lines lacking one split the lines that match the parent pattern exactly between them: every such line is returned by exactly one of the two, in configuration order and once only. "
     "A search for lines below others returns exactly the lines that match the child pattern and have a matching parent (with recurse, a matching ancestor), in order and once. "
     "The recurse option decides only whether direct children or all descendants are examined.",
     ["inputs", "configurations"], "every configuration, every pair of patterns, every option combination",
     "Tests compare a handful of outputs; a dropped or doubled line, or an ignored recurse flag, depends on the tree shape.",
     [CC, ABC], [("parent/child searches", "CiscoConfParse.find_parent_objects, find_parent_objects_wo_child, find_child_objects, find_objects_w_all_children, find_objects_w_missing_children"), ("child searches of a line", "BaseCfgLine.re_search_children, has_child_with")])
prop("C10", "Every accepted option takes effect in every variant",
     "Every option accepted by a public search, match or edit call influences what it does, and an alias, text-returning or convenience form hands each option it accepts to the operation it stands for under the same meaning. "
     "No accepted option is silently dropped, hard-wired, swapped with another or replaced by its default.",
     ["inputs", "configurations"], "every public call and every combination of its options",
     "Tests exercise aliases with default options; a dropped or swapped keyword is invisible until that option is used on that alias.",
     [CC, ABC, UT], [("delegating search variants", CC), ("line-object search helpers", ABC)])
prop("C11", "User patterns are embedded intact",
     "When the library builds a regular expression around a caller's pattern (exact-match, whitespace-tolerant), the caller's pattern keeps its meaning as one unit: exact-match anchors both ends of every alternative, and no part of a pattern is matched against anything but the line text. "
     "Every search helper applies the caller's pattern, flags and target line text in that role.",
     ["inputs"], "every regular expression a caller can pass, including alternations and already anchored ones, and every line",
     "Tests pass plain literals for which grouping and anchoring make no difference.",
     [CC, ABC], [("exact-match construction", CC), ("whitespace-tolerant construction", "build_space_tolerant_regex")])
prop("C12", "Results are deterministic",
     "The result of every parse, search, edit, diff and value operation - including the order of returned sequences and the text of rendered output - is a function of its arguments alone: it does not depend on hash randomisation, set iteration order, object addresses, clocks, random numbers or environment variables (the documented default text encoding, the time stamp in a diff header and DNS query durations apart).",
     ["inputs", "schedules"], "every operation outside DNS lookups and logging setup, every hash seed",
     "A test process runs under one hash seed; order instability shows on other seeds or larger inputs.",
     ALL, [("sorted() over sets before they are returned as sequences", CC), ("diff line identifiers", ABC)])
prop("C13", "Parsing has no authority beyond reading the named file",
     "No operation other than the explicitly named command-runner, DNS helpers, logging set-up and save-to-file may start a process, open a network connection, or create, write, rename or delete a file; reading is limited to the file the caller named. "
     "No configuration text, pattern or option is ever evaluated as code or deserialised with an unsafe loader.",
     ["inputs"], "every public operation reachable on untrusted configuration text",
     "Tests never look for side effects outside the process.",
     ALL, [("command runner", "ccp_util.run_this_posix_command"), ("save", "CiscoConfParse.save_as"), ("file reading", "CiscoConfParse.read_config_file"), ("DNS", "ccp_util.dns_query")])
prop("C14", "Library calls never end the caller's process",
     "No library operation terminates, signals or replaces the interpreter; every failure is reported as an ordinary exception that a caller can handle.",
     ["inputs", "fault_sequences"], "every public operation and every invalid input",
     "The exits sit on error branches tests do not reach, or which abort the test run itself.",
     ALL, [("error branches raise exceptions", "package")])
prop("C15", "Errors are reported, never swallowed",
     "An operation that detects invalid input or cannot complete raises an exception: no handler discards a failure and goes on as if the operation had succeeded, and every logging wrapper re-raises what it caught. "
     "The only conversions of a failure into a value are the documented look-ups that report an absent or unusable address (a dynamic one is still reported as dynamic by the network look-up).",
     ["inputs", "fault_sequences"], "every exception raised anywhere below a public operation",
     "Tests provoke few failures; a handler added around rarely failing code is never exercised.",
     ALL, [("logger.catch(reraise=True) on every function", "package"), ("explicit raise after logging an error", "package")])
prop("C16", "No path uses an undefined or unassigned name",
     "On every path of every function, each variable is assigned before it is read and each global, imported or attribute-of-module name exists; no operation fails with an unbound-variable or undefined-name error for any input.",
     ["inputs"], "every path through every function of the package",
     "Rare branches (one-element lists, empty matches, error paths) are not executed by the tests.",
     ALL, [("definite assignment", "package")])
prop("C17", "Internal calls and attribute uses resolve",
     "Every call between parts of the library supplies the arguments its target accepts and no others, every attribute or method used on a library object exists on it, and no type test is given something that is not a type. "
     "No operation fails with an attribute, arity or type-test error of the library's own making.",
     ["inputs"], "every call site and attribute access whose target the type analysis resolves",
     "Wrong keywords or attributes in rarely taken branches are only found when that branch runs.",
     ALL, [("resolved call graph", "package")])
prop("C18", "Equality and hashing agree",
     "For address, interface, range, port and configuration-line objects: equal objects have equal hashes, an object equals itself, inequality is the negation of equality, comparison with an unrelated type is false rather than an error, and equality is symmetric.",
     ["inputs"], "every pair of objects of the value classes and of line objects",
     "Tests compare a few pairs; a field present in the hash but not in equality fails only for objects differing in that field.",
     [UT, ABC, CC, MI], [("__eq__ / __ne__ / __hash__", "value classes")])
prop("C19", "Orderings are consistent",
     "For every class that defines ordering, less-than and greater-than are each other's mirror image, irreflexive, asymmetric and transitive; less-or-equal and greater-or-equal include equality; addresses of one family are ordered by numeric network address, then by prefix length, then by numeric host address, and configuration lines by line number. "
     "Comparisons of the line list agree with comparison of the underlying lists of lines.",
     ["inputs"], "every pair of operands, through all sign patterns of the compared keys",
     "Tests sort one sample list; ties and mirrored operands are not covered.",
     [UT, CC], [("__lt__/__gt__/__le__/__ge__", "IPv4Obj, IPv6Obj, L4Object, CiscoIOSInterface, CiscoIOSXRInterface, ConfigList")])
prop("C20", "Address containment and arithmetic respect exact bounds",
     "An address object contains another of its family exactly when the other's first and last addresses lie within its network, bounds included, for both address families and every prefix length. "
     "Adding or subtracting an integer succeeds exactly when the result is between zero and the largest address of the family, moves the address by exactly that much and keeps the prefix length, and fails otherwise; the offset of an address inside its network reads as the distance from the network address and can be set to every value from 0 to the network's last address.",
     ["inputs"], "every pair of addresses/networks and every offset",
     "Tests use mid-range addresses; first/last addresses, /31, /127, /32, /128 and the zero and all-ones addresses are missed.",
     [UT], [("__contains__, __add__, __sub__", "IPv4Obj / IPv6Obj")])
prop("C21", "Alias names always agree",
     "Every alternative name for the same quantity of an address object - the names of the prefix length (prefixlen, prefixlength, masklen, masklength), of the integer value (as_decimal, as_int, int()), of the address object, host mask, network and version - and every alternative name of a line-model or interface attribute (ip / ipv4 / ip_addr / ip_accessgroup_in, index / linenum, name / rendering and the like) yields the same value as the name it stands for; setting the prefix length or the network offset under one name is seen through all others. "
     "A name offered by both address families is the same kind of member (property or method) in both.",
     ["inputs", "histories"], "every object, every alias pair, reads after any setter",
     "Tests read one spelling of each quantity.",
     [UT, MI, MN, MX, MA, MJ, CC], [("prefixlen/prefixlength/masklen/masklength, as_decimal/as_int, ip/ipv4/addr aliases", UT)])
prop("C22", "Every syntax is handled everywhere a syntax is chosen",
     "Each supported syntax name is accepted by every place that chooses behaviour by syntax, has its own line classes and a catch-all class that is tried last, and an unsupported name is rejected with an error rather than treated as another syntax. "
     "Each line class can be asked whether it applies to a line using one common calling convention, and line classes of one syntax are never used for another.",
     ["configurations", "inputs"], "every syntax name, every place of use, every line class",
     "Tests use factory mode mainly for one syntax.",
     [CC, MI, MN, MX, MA, MJ], [("class tables and ALL_VALID_SYNTAX", CC), ("is_object_for", "models_*.py")])
prop("C23", "Every built-in pattern compiles and its groups exist",
     "Every regular expression written in the library compiles, and every capture group number or name read from a match exists in the pattern that produced it; no accessor can fail because of its own pattern or always miss because of a group that is not there.",
     ["inputs"], "every pattern literal and every group reference in the package",
     "Accessors without a test (most of the ASA and Junos models) never compile their patterns.",
     ALL, [("re_match_typed / re_match_iter_typed group arguments", "models_*.py"), ("groupdict / group uses", "package")])
prop("C24", "Typed captures convert for every match",
     "Whenever the library asks for a captured text as an integer or a float, every text the capture can match is convertible, so no line that matches the pattern makes the accessor raise a conversion error.",
     ["inputs"], "every string in the language of each capture group used with a numeric conversion",
     "Tests use numeric samples; the pattern may also admit text that is not a number.",
     [ABC, MI, MN, MX, MA, MJ, UT], [("result_type / groupdict conversions", "BaseCfgLine.re_match_typed, re_match_iter_typed"), ("int(match.group())", UT)])
prop("C25", "No built-in pattern backtracks exponentially",
     "Matching any of the library's own regular expressions against a line takes time polynomial in the line's length, whatever the line contains.",
     ["inputs"], "every pattern literal in the package, every input string",
     "No test feeds adversarial lines; ambiguity in a nested repeat is invisible on matching input.",
     ALL, [("pattern literals", "package")])
prop("C26", "Accessors return one kind of value",
     "A model accessor named as a yes/no question (is_..., has_...) returns True or False on every path, never None, text or a number. "
     "An accessor that reports a value on some path reports one on every path on which it does not raise - it never silently falls off its end - and none reports text on one path and a number on another.",
     ["inputs"], "every accessor of every line model, configured and unconfigured",
     "Tests check one or two configured interfaces per accessor; the absent case or a rare branch falls through to nothing.",
     [ABC, MI, MN, MX, MA, MJ], [("is_*/has_* properties", "models_*.py"), ("default= / result_type= of the typed matchers", ABC)])
prop("C27", "Presence flags agree with the values they announce",
     "A has-X flag of a line model (and the flags has_xconnect, has_ip_hsrp and has_..._md5 of the values xconnect_vc, hsrp_ip_addr and ..._md5_keychain) is true exactly when the corresponding value accessor reports a configured value; the MAC access-group flags count on switch ports only. "
     "Interface accessors of one name on several platforms (IOS, IOS-XR, NX-OS, ASA) that read their value by matching the same command recognise the same command lines and take the same part of them; HSRP, MPLS, VRF, IPv4 address and helper-address commands, which the platforms write differently, apart.",
     ["inputs"], "every line model offering both members, every child configuration",
     "Tests check flag and value on separate samples.",
     [MI, MN, MX, MA, MJ], [("has_* properties derived from value accessors", "models_*.py")])
prop("C28", "Port operators denote exact port sets",
     "For every port specification - equal, not-equal, less-than, greater-than, range, by number or by well-known name - the resulting port list is exactly the ports in 1..65535 that satisfy it, bounds included where the operator includes them, and names are resolved from the table of the given protocol, in which well-known names carry their registered port numbers.",
     ["inputs"], "every operator, port number and name",
     "Tests sample a few ports per operator.",
     [UT, "ciscoconfparse/protocol_values.py"], [("L4Object.__init__", UT), ("ASA_TCP_PORTS / ASA_UDP_PORTS", "ciscoconfparse/protocol_values.py")])
prop("C29", "Type-7 decryption uses the full vendor key at every offset",
     "Decoding a type-7 password (a two-digit start offset followed by one or more hexadecimal bytes) xors each byte with the vendor key byte at (start offset + position) modulo the key length, the key being the 53-byte vendor constant, so passwords of any length and any start offset decode.",
     ["inputs"], "every ciphertext, every start offset, every length",
     "One short sample is tested; the wrap-around of the key is never reached.",
     [CC], [("CiscoPassword.decrypt", CC)])
prop("C30", "Files are read and written completely, in the stated encoding",
     "Every file the library opens is opened with the caller's or the configured encoding and closed on every path; saving writes every configuration line, in order, each followed by a line end, and nothing else. "
     "Reading splits the text only at line ends, or where the caller's linesplit_rgx says.",
     ["inputs", "fault_sequences"], "every file, encoding and configuration",
     "Tests run under one locale and rarely check written files or descriptor leaks.",
     [CC], [("CiscoConfParse.read_config_file, save_as, Diff", CC)])
prop("C31", "Wrapping a function never changes its outcome",
     "Every decorator applied to a public operation hands all arguments to the operation and returns exactly what it returned, or raises; no wrapper drops a result, an argument or an exception.",
     ["inputs"], "every decorated function and every call",
     "Tests ignore return values of edit operations.",
     ALL, [("junos_unsupported, log_function_call, logger.catch", UT)])
prop("C32", "Interface values keep all their fields",
     "Every component of an interface name (prefix, separator, slot, card, port, subinterface, channel, class, and the processor on platforms that have it) that is parsed is also stored, listed in the dictionary form, read back from that dictionary form and rendered. "
     "The sort list and the number list hold their components in the order of the name, and two names that differ only in one component from the slot to the class are neither equal nor unordered.",
     ["inputs"], "every interface name on both interface classes, via string or dictionary construction",
     "Tests use interfaces with few components; a field dropped from one of the parallel tables shows only for names having it.",
     [UT], [("as_dict / from_dict / update_internal_state / check_interface_dict / render_as_string / sort_list", UT)])
prop("C33", "A rejected edit leaves the configuration unchanged",
     "When an edit call raises because its arguments are invalid, it does so before the first change: no check that the edit operation, or an operation it calls, makes of those arguments or of the lines to be edited can fail after the configuration has already been modified. (Text that only the parser refuses, at the re-parse of an atomic edit, is outside.)",
     ["inputs", "fault_sequences"], "every edit method and every invalid argument",
     "Tests assert that an error is raised, not that nothing changed.",
     [CC, ABC], [("argument checks precede mutation in edit methods", CC)])
prop("C34", "Edits at several places keep positions right",
     "When one edit touches several positions of the line list, no earlier change shifts the positions used by a later one, and removing a line removes all its descendants and nothing else. "
     "Each matching line is edited exactly once, also when several matching parents lead to it.",
     ["inputs"], "every configuration with any number of matches or descendants",
     "Tests have one match or shallow trees.",
     [CC, ABC], [("delete in descending line order", "BaseCfgLine.delete"), ("insert at collected indices", "ConfigList.insert_before/insert_after")])
prop("C35", "Diff labels are complete and consistent",
     "In a hierarchical diff (HDiff) every line of the first configuration ends with the label keep when the second configuration has it at the same place and remove otherwise, and every line of the second ends with the label unchanged or add accordingly; every kept, removed and added line is listed exactly once (a repeated line once), with the side it belongs to, and rendered with a blank, '-' or '+' before its own indentation and words. "
     "A configuration line accepts only the known sides, and only the labels of its own side; any other value is refused and not stored.",
     ["inputs"], "every pair of configurations",
     "Tests diff a few pairs in one syntax.",
     [CC, ABC], [("diff_word / diff_side vocabularies", ABC), ("HDiff", CC)])
prop("C36", "The line list behaves as a Python sequence",
     "Length, iteration, membership, indexing, counting, positions, comparison, concatenation, repetition, and truth of the line list - and of integer ranges - agree with those of the sequence of elements they hold, for positive and negative indexes alike.",
     ["inputs"], "every sequence operation and index",
     "Tests use a few positive indexes.",
     [CC, UT], [("ConfigList and CiscoRange dunder methods", CC)])
prop("C37", "Assertions the library relies on are never disabled",
     "The package refuses to be imported when Python assertions are disabled, by command-line flag (-O, -OO) or by a PYTHONOPTIMIZE setting that is not blank, before any of its functions can be used.",
     ["configurations"], "every interpreter flag and PYTHONOPTIMIZE value",
     "The test suite itself cannot run with assertions disabled.",
     [UT, "ciscoconfparse/__init__.py"], [("PythonOptimizeCheck", UT)])
prop("C38", "The indentation hierarchy is the device's hierarchy",
     "For every indentation-structured configuration, a line's parent is the nearest preceding line with smaller indentation in the same block, with banner and macro bodies attached to their opening line.",
     ["inputs"], "every configuration text",
     "Fixtures cover a few shapes.",
     [CC], [("ConfigList._build_bootstrap_parent_child", CC)])
prop("C39", "Brace-style configurations convert without loss",
     "Converting brace-structured (Junos-like) text yields one line per statement, nested exactly as the braces nest, for every layout of braces, comments and semicolons.",
     ["inputs"], "every brace-structured text", "Two fixtures are tested.",
     [CC], [("convert_junos_to_ios / parse_line_braces", CC)])
prop("C40", "Range compression and expansion are inverse",
     "Expanding a range text and compressing the result denotes the same set of members, for integers and interfaces.",
     ["inputs"], "every range text", "A few dozen range texts are tested.",
     [UT], [("CiscoRange", UT)])
prop("C41", "Applying a computed diff yields the target configuration",
     "The lines produced by a configuration diff, applied to the first configuration, give the second.",
     ["inputs"], "every pair of configurations", "A few pairs are tested.",
     [CC], [("HDiff / sync_diff", CC)])
prop("C42", "Address text round-trips",
     "Rendering a parsed address or network and parsing it again gives an equal object.",
     ["inputs"], "every address text", "Samples only.",
     [UT], [("IPv4Obj / IPv6Obj parsing and rendering", UT)])

prop("C43", "Every test of configuration text can succeed",
     "Wherever the library recognises configuration text by comparing it, a piece of it or its words with fixed text, some text makes the comparison true; what a successful comparison guards exists in the text and is the value, not the keyword that was compared; texts are separated at texts, not at patterns; and no pattern looks for a replacement field nobody filled in. So every configured value the library claims to read can be read.",
     ["inputs"], "every comparison, slice, separator and pattern applied to configuration text",
     "A test that can never succeed returns the default, which is what most fixtures expect; tests sample a few lines per accessor.",
     [CC, ABC, UT, MI, MN, MX, MA, MJ], [("accessors of HSRPInterfaceGroup and the interface and AAA models", "ciscoconfparse/models_cisco.py"), ("is_object_for of every model", "ciscoconfparse/models_cisco.py")])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
