import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Backtracking never loses, repeats or invents characters",
 "Evaluating a rule on a character stream reports exactly the characters it took from that stream, in order, and the characters it reports as unused are exactly the tail of those that the match does not cover. When the rule does not match, everything it took is reported unused. Putting the unused characters back in front of the rest of the stream therefore always restores the original text from the end of the match on.",
 ["inputs","programs"],"every rule of every grammar, every text, every starting stream (fresh, or one with characters put back)",
 "Tests compare the text of a few results; none checks the read/unused accounting, and look-ahead bugs need a failed or shorter alternative followed by more rules.",
 ["rule_concatenate.go","rule_repetition.go","rule_choice.go","rule_block.go","rule.go","charstream.go"],
 [("read/unused accounting of a sequence","ConcatenateRule.Eval"),("read/unused accounting of a repetition","RepetitionRule.Eval"),("alternatives replayed on the longest look-ahead","ChoiceRule.Eval"),("block scanning","BlockRule.Eval"),("put-back stream","newCharstreamPrepend")],
 [("CharsRead","all characters taken, including unused ones","rule.go EvalResult"),("CharsUnused","suffix of CharsRead not covered by the node","rule.go EvalResult")],
 ["IRule.Eval result against a recording stream"])
p("C02","Terminals match exactly the characters they denote",
 "A single-character, multi-character, string, range or end-of-file terminal matches at a point of the text exactly when the text there (after the leading whitespace its skipping mode allows) spells that terminal, whichever Unicode characters are involved. The matched node carries exactly the terminal's characters (for a range, the one character found, which lies within the inclusive bounds) and nothing beyond them is consumed.",
 ["inputs","programs"],"every terminal over all Unicode characters incl. whitespace, astral and boundary code points; every text; all three whitespace modes",
 "Tests use a dozen ASCII terminals; range bounds, whitespace-valued terminals, whitespace-led strings and non-ASCII text are barely touched.",
 ["rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_string.go","rule_terminal_range.go","rule_eof.go"],
 [("char match","TerminalCharRule.Eval"),("chars match","TerminalCharsRule.Eval"),("string match","TerminalStringRule.Eval"),("range match","TerminalRangeRule.Eval"),("EOF match","EOFRule.Eval")],
 None,["IRule.Eval, Grammar.EvalRule"])
p("C03","Whitespace between tokens is skipped exactly where stickiness allows",
 "Inside a sequence, whitespace in front of the next element is skipped when the previous element was not sticky and is significant when it was sticky, except that string terminals always tolerate it; an option that matched nothing does not change that decision, and an explicit no-skip request applies to the first element only. Whitespace means exactly the 25 Unicode White_Space characters, wherever they occur. A rule reports itself sticky only if every part evaluated for it was sticky; a string or block is never sticky.",
 ["inputs","programs"],"every grammar mixing sticky and non-sticky parts, every placement and kind of whitespace, all three initial whitespace modes",
 "Whitespace placement combines with every pair of adjacent rule kinds; tests try single spaces at a few places.",
 ["rule_concatenate.go","rule_repetition.go","rule_option.go","rule_choice.go","space.go"],
 [("skip flag handed to the next element","ConcatenateRule.Eval"),("whitespace set","IsWhiteSpace"),("stickiness propagation","ChoiceRule.Eval, RepetitionRule.Eval, GroupRule.Eval")],
 None,["IRule.Eval, Grammar.Eval, IsWhiteSpace"])
p("C04","A choice picks the longest alternative of the first matching group",
 "A choice tries its groups in order and stops at the first group in which some alternative matches; within that group the alternative that consumes the most characters is taken. If two or more alternatives of that group tie for the most characters the choice fails as ambiguous, and if no group matches it fails. Neither the outcome nor the chosen alternative depends on the order in which alternatives of the same group are written.",
 ["inputs","programs"],"every choice (any number of groups and alternatives, shared prefixes, nested choices), every text",
 "Longest-match and ambiguity outcomes depend on which of many alternatives match with which lengths; tests sample a few pairs.",
 ["rule_choice.go"],[("longest match / ambiguity","ChoiceRule.Eval"),("ordered groups","ChoiceRule.groups")],None,["IRule.Eval, Grammar.EvalRule, Grammar.Eval"])
p("C05","Sequences, options and repetitions match what their definition says",
 "A sequence matches exactly when its elements match one after another in order, each starting where the previous ended; an option always succeeds and consumes what its inner rule matches, or nothing. A repetition greedily collects matches of its inner rule, never more than its maximum, and succeeds exactly when it found at least its minimum; a failed last attempt costs no characters and leaves the matches found before it intact.",
 ["inputs","programs"],"every nesting of sequences, groups, options, references and bounded or unbounded repetitions; every text",
 "Failures need an attempt that reads ahead and gives up in the middle of a longer rule; tests rarely go beyond one level of nesting.",
 ["rule_concatenate.go","rule_option.go","rule_repetition.go","rule_group.go","rule_reference.go"],
 [("sequence","ConcatenateRule.Eval"),("option","OptionRule.Eval"),("bounds","RepetitionRule.Eval"),("reference","ReferenceRule.Eval")],None,["IRule.Eval, Grammar.EvalRule"])
p("C06","Blocks capture text verbatim up to the first unescaped close",
 "A block matches from its open rule to the first place where its close rule matches and is not escaped; in between, text is kept verbatim, whitespace included, with an escape dropped only when it protects a close or an excluded text right behind it, which is then kept as content. An excluded text met unescaped, or the end of the text before a close, makes the block fail without consuming anything. A block with a reusable close hands the close's characters on to the next rule.",
 ["inputs","programs"],"every block (any open, escape, exclude and close rules incl. multi-character, overlapping and choice rules, both close modes), every text",
 "Partial matches of escape, exclude and close rules against each other are combinatorial; tests have about a dozen block texts.",
 ["rule_block.go","rule.go"],[("block scan","BlockRule.Eval"),("longest exclude","mostGreedy")],None,["IRule.Eval, Grammar.EvalRule, Grammar.Eval"])
p("C07","A successful parse accounts for the whole text",
 "When parsing a whole text succeeds, the leaves of the raw syntax tree, read left to right, are exactly the characters of the text in order, apart from whitespace skipped between tokens, escape characters dropped in front of the text they protect and re-used block closes. Nothing else of the input is missing, repeated, reordered or made up. A text some part of which no rule accepts is never reported as parsed.",
 ["inputs","programs"],"every valid grammar with any number of root rules, every text",
 "Tests look at trees of a few valid texts; silent loss shows only after look-ahead by another root or alternative, between consecutive root matches.",
 ["grammar.go","rule_concatenate.go","rule_repetition.go","rule_choice.go","rule_block.go"],
 [("round after round over the root rules","Grammar.EvalRaw"),("left-over characters carried to the next round","Grammar.EvalRaw charsUnused")],None,["Grammar.Eval, Grammar.EvalRaw"])
p("C08","Parsing is deterministic and ignores the order of rule definitions",
 "Parsing the same text with the same grammar always gives the same tree or fails alike, however often it is repeated in one process or in different ones and whatever the order in which the rules of the grammar are written. Of several root rules matching at a point the one that consumes the most characters wins, and a tie for the most is always reported as ambiguity.",
 ["inputs","programs","schedules"],"every grammar with several root rules, every text, every iteration order of the rule table, every permutation of the definitions",
 "The outcome may depend on Go's randomised map order; a test that runs once samples one order.",
 ["grammar.go"],[("selection among root rules","Grammar.EvalRaw"),("root rule table","Grammar.rootRules")],[("rootRules","map of rules no other rule uses","grammar.go")],["Grammar.Eval, Grammar.EvalRaw"])
p("C09","Parsing always terminates",
 "For every grammar without left recursion and every finite text, every evaluation call returns, after a number of stream operations bounded by the grammar and the text. This includes repetitions, blocks, root rules and embedded searches whose inner rule can match without consuming anything, which stop instead of looping.",
 ["inputs","programs"],"every grammar without left recursion, with nullable rules anywhere, every text",
 "A test that hangs is never kept; nullable bodies and zero-length matches are not exercised at all.",
 ["rule_repetition.go","rule_block.go","grammar.go"],[("repetition loop","RepetitionRule.Eval"),("block scan loop","BlockRule.Eval"),("root loop","Grammar.EvalRaw"),("embed loop","Grammar.EvalEmbed")],None,["IRule.Eval, Grammar.Eval, Grammar.EvalEmbed, stream operations"])
p("C10","Every node's position is where its text starts",
 "The line and column (both from 1) on a node of the raw tree are those of the first character of its text in the parsed input; a node with children and matched text starts where its first positioned child starts. Lines are separated by line feeds only and every other character, of whatever width or plane, counts as one column. Nodes with text never lack a position.",
 ["inputs","programs"],"every grammar, every text with any mix of newlines, whitespace and Unicode, however far the parser looked ahead or backtracked",
 "Positions after skipped whitespace, put-back characters and several lines are not asserted by the tests for most node kinds.",
 ["charstream.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go","rule_group.go","rule_block.go"],
 [("index to line/column","positionMap.lookup"),("position of put-back characters","CharstreamPrepend.Position"),("start position of terminals","Terminal*Rule.Eval")],[("positionMap","ends of the lines read so far","charstream.go")],["Node.Position on trees from Grammar.EvalRaw / IRule.Eval"])
p("C11","A character stream behaves as one sequence with a cursor",
 "Under any sequence of reads, peeks, matches, whitespace skips, cursor and position queries, a stream delivers exactly the characters of its text in order and then end-of-file for ever; peeks and queries change nothing, a match consumes exactly the characters it reports, and the cursor counts the characters consumed. The current position and the position of any index already read are the line and column of that character. A stream with characters put back in front behaves exactly like the stream before they were read.",
 ["histories","inputs"],"every text (empty, Unicode, invalid UTF-8, many lines), every finite history of stream operations, any nesting of put-backs",
 "State depends on the whole operation history; tests run a handful of fixed sequences, mostly on one line.",
 ["charstream.go"],[("string stream","CharstreamString"),("put-back stream","CharstreamPrepend"),("line map","positionMap")],[("cursor","index of the next character","charstream.go"),("positionMap.lines","line ends seen","charstream.go")],["ICharstream methods"],"constructor of the put-back stream is not exported: build-tagged hook")
p("C12","Streams are safe and atomic under concurrent use",
 "Any number of goroutines may call any mix of stream operations on one stream, plain or with characters put back: there is no data race, and every operation takes effect atomically, so each character is delivered exactly once and every history of results is explained by some one-at-a-time order of the calls. The consumed pieces put in that order spell the text. A slice handed out by one call is never altered by, and altering it never affects, the stream.",
 ["schedules","histories"],"every interleaving of concurrent stream operations, every text",
 "The tests are single-threaded; races and lost or doubled characters need particular interleavings.",
 ["charstream.go"],[("locking","CharstreamString.lock"),("locking","CharstreamPrepend.lock")],[("cursor, positionMap","shared mutable state","charstream.go")],["ICharstream methods from several goroutines under the race detector"],"constructor of the put-back stream is not exported: build-tagged hook")
p("C13","A grammar can be shared by concurrent parses",
 "Once loaded, one grammar can be used by any number of goroutines to parse, evaluate rules, search and print at the same time, each on its own text, without data race. Each call returns what it would have returned alone.",
 ["schedules","inputs"],"every interleaving of evaluation and printing calls on one grammar, every text",
 "No test evaluates concurrently.",
 ["grammar.go","rule.go","rule_choice.go","rule_block.go","node.go"],[("read-only use of the rule table during evaluation","Grammar.GetRecord, Grammar.EvalRaw"),("per-call result objects","IRule.Eval")],[("ruleRecords, rootRules, terminals","shared tables","grammar.go")],["Grammar.Eval/EvalRule/EvalEmbed/Serialize from several goroutines"])
p("C14","Printing a rule and loading it back gives the same rule",
 "The definition text printed for any rule of a loaded grammar is itself a valid definition, and a grammar rebuilt from the printed definitions accepts the same texts with the same trees, annotations included. Printing the rebuilt rule gives the same text again.",
 ["programs","inputs"],"every loadable rule: all terminals (quotes, backslashes, control and non-ASCII characters, both unicode-escape forms), ranges, annotations, bounds, groups, blocks and nestings",
 "Tests print rules for logging only; nothing loads a printed definition back.",
 ["rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go","rule_repetition.go","rule_block.go","rule_choice.go","rule_concatenate.go","rule_reference.go"],
 [("printing","String methods of the rules"),("loading","Grammar.parse")],None,["IRule.String, Grammar.ParseRule, evaluation of both grammars"])
p("C15","A definition denotes the structure its notation says",
 "Loading a definition yields the rule its notation denotes: choice binds tighter than juxtaposition, brackets nest, annotations apply to the element they precede, quotes and backslash and unicode escapes denote the characters they spell, and trailing comments and the amount or kind of whitespace between elements (outside blocks) make no difference. The same definitions denote the same grammar whether loaded from a file, from a string, or rule by rule. Comment and blank lines are ignored.",
 ["programs","inputs"],"every definition built from the notation, every layout of it, every loading path",
 "The notation is compositional: operator and bracket nestings, escapes and layouts are unbounded, tests use some tens of fixed definitions.",
 ["grammar.go","rule_choice.go","rule_repetition.go","rule_block.go","rule_terminal_char.go","rule_terminal_string.go","rule_terminal_range.go"],
 [("definition parser","Grammar.parse, Grammar.parseOne"),("line loader","NewGrammarFromString"),("escapes","parseUnicodeEscape, inChar, inString")],None,["evaluation results of the loaded grammar against the intended structure"])
p("C16","Only well-formed, closed grammars load, and failures change nothing",
 "A grammar with a rule that is malformed (an annotation that precedes no rule included), defined twice, badly named, or that refers to a rule nobody defines is rejected with an error, which for a bad line names that line; a well-formed one loads. A definition that is rejected while adding rules one by one leaves the grammar as it was. The root rules of a validated grammar are exactly the defined rules no definition refers to, also after rules are added later.",
 ["programs","histories"],"every grammar text and every history of adding rules (good and bad) and validating",
 "Tests check a few malformed lines; state after failed or late additions is not examined.",
 ["grammar.go","rule.go","rule_reference.go"],[("closedness and roots","Grammar.Validate"),("registration","Grammar.ParseRule"),("usage table","Grammar.AddUsage"),("name check","validateRuleName")],[("nonRoots","who refers to a rule","grammar.go"),("rootRules","rules tried at the top","grammar.go")],["NewGrammarFromString, AddRule, ParseRule, Validate, Eval"])
p("C17","No grammar or input text can crash the library",
 "Loading any byte string as a grammar, and parsing, searching, printing or simplifying with any grammar that loads and is not left-recursive on any byte string as text, returns normally with a result or an error. No call panics, exhausts the stack or memory, or runs for ever (brackets of the definition and nesting of the text up to 1000 deep, and no repetition that asks for huge numbers of an empty match).",
 ["inputs","programs"],"arbitrary bytes as grammar text (mutated, truncated, invalid UTF-8, unbalanced, deeply nested) and as input text; all entry points",
 "Tests feed well-formed definitions plus a few errors; crash inputs are exactly the ones nobody thought to write.",
 ["grammar.go","rule_block.go","rule_repetition.go","rule_choice.go","rule_terminal_char.go","charstream.go","node.go","ast.go"],
 [("error returns of the definition parser","Grammar.parse"),("end-of-file handling","EOFChar")],None,["all exported entry points"])
p("C18","The raw tree is a derivation of the text by the grammar",
 "In the raw tree every node carries the kind and name of the rule that produced it and its children mirror that rule: a sequence has one child per element, a choice one, a group one, an option at most one, a repetition as many as it matched (within bounds), a block its open, its content and, unless re-used, its close. A reference contributes the node of the rule it names. Every child was produced by the corresponding inner rule, so the tree as a whole witnesses that the text belongs to the language.",
 ["inputs","programs"],"every grammar, every accepted text",
 "Tests compare flattened text; the shape of the tree is only logged.",
 ["rule_concatenate.go","rule_choice.go","rule_group.go","rule_option.go","rule_repetition.go","rule_block.go","rule_reference.go","node.go"],
 [("node construction","Eval methods of the rules")],None,["AST from Grammar.EvalRaw, node from IRule.Eval"])
p("C19","Annotations reach the nodes they belong to",
 "A node is marked virtual, non-data or tokenized exactly when the rule element that produced it is annotated so; annotating a reference toggles the mark given by the referenced rule's own definition, for that occurrence only. Annotations never change which texts match or how much is consumed.",
 ["inputs","programs"],"every placement and combination of the three annotations on every kind of element, nested references, every text",
 "Combinations of marks, element kinds and reference chains are not enumerated by tests.",
 ["grammar.go","rule.go","rule_reference.go","rule_eof.go"],[("marks","ruleBase.setAnnotation"),("toggling","ReferenceRule.Eval")],None,["Node.Virtual/NonData/Tokenized on raw trees"])
p("C20","Token merging joins exactly the adjacent sticky nodes",
 "Simplifying a tree joins each maximal run of adjacent sticky sibling nodes into one leaf whose text is their texts in order, without dropping, adding or reordering any text; non-sticky nodes are never joined, blocks keep open, content and close apart, and a tokenized node is never joined to the sibling on its left. No node that survives stays marked sticky once merged. Merging twice gives the same as merging once, and merging through an evaluation result the same as merging its node.",
 ["inputs","programs"],"every tree the parser can produce",
 "Runs of sticky, tokenized, virtual and nested nodes combine freely; tests check a few texts.",
 ["node.go","ast.go"],[("merging","MergeStickyNodes"),("block exception","Node.MergeStickyNodes")],None,["AST before/after merging, Grammar.Eval at each level"])
p("C21","Simplification removes only what was annotated for removal",
 "Removing virtual (or non-data) nodes removes every node so marked, together with what is below it, and nothing else: the remaining nodes keep their order, text and marks. The simplification level asked for decides which removals happen: none for raw and basic, virtual for the next, both for data only. Text that was not annotated for removal is present at every level.",
 ["inputs","programs"],"every tree the parser can produce, every level",
 "Loss of unmarked text needs marked and unmarked sticky neighbours; tests check few combinations.",
 ["ast.go","node.go","grammar.go"],[("virtual removal","RemoveVirtualNodes"),("non-data removal","RemoveNonDataNodes"),("levels","Grammar.Eval")],None,["AST from Grammar.Eval at each level; AST/Node removal methods"])
p("C22","Removing redundant nodes keeps names, order and text",
 "Removing redundant nodes from a token-merged tree drops only unnamed nodes that wrap others or have no text: every named node survives with its text and its nesting among named nodes, and the text of the whole tree is unchanged. No unnamed node with children is left below a root (other than a non-data root, which is left alone) unless it or its parent is a block, and neither an unnamed node without text and without named nodes in it nor an unnamed leaf that is an only child is left there.",
 ["inputs","programs"],"every tree the parser can produce at every level",
 "Promotions interact with blocks, empty options and single-child chains; tests check the text of a few trees.",
 ["node.go","ast.go"],[("promotion","Node.RemoveRedundantNodes")],None,["AST/Node before/after RemoveRedundantNodes; Grammar.Eval"])
p("C23","Embedded search tiles the text with matches and free text",
 "Searching a text for a rule returns nodes that tile the text from start to end: each match node is what the rule matches at the first position, from where the search stands, at which it matches a non-empty piece, and the text between matches appears verbatim in text nodes, never two in a row and never empty. Joining all pieces gives back the text, up to what the rule itself drops inside a match. An unknown rule name gives an error.",
 ["inputs","programs"],"every rule, every text, matches at any distance and adjacent to each other",
 "Resumption after a failed look-ahead inside a match is not tested; two short tests exist.",
 ["grammar.go"],[("search loop","Grammar.EvalEmbed")],None,["Grammar.EvalEmbed"])
p("C24","Outcomes are unambiguous: a tree or an error, never both or neither",
 "Parsing returns either a tree and no error or an error and no tree, at every simplification level, accepts or rejects a text at every level alike, and the raw tree is never empty. A rule evaluation without a node always carries an error, whose index lies within the text. Evaluating or searching an undefined rule, and parsing an empty text, are errors; in a grammar that was not validated a reference to a missing rule matches nothing; and no error message contains formatting artefacts.",
 ["inputs","programs"],"every grammar (not left-recursive), text, level and entry point",
 "Failure paths are many (each rule kind at end of text, ambiguity, undefined names); tests inspect the error of few.",
 ["grammar.go","rule_choice.go","rule_concatenate.go","rule_repetition.go","rule_block.go","rule_terminal_char.go"],
 [("error results","Eval methods"),("driver errors","Grammar.EvalRaw, Grammar.Eval")],None,["Grammar.Eval, Grammar.EvalRaw, Grammar.EvalRule, Grammar.EvalEmbed, IRule.Eval"])
p("C25","The command-line tool reports what the library computes",
 "For any rules given by file, by options or both, and any texts given directly or in files, the tool prints for each text the tree the library computes for it after removing virtual, non-data and redundant nodes, or the error the library reports. Texts are handled in order up to the first one with an error, which is reported. Rules from a file, complete by themselves, and rules added by options form one grammar; bad rules or unreadable files are reported as errors and nothing is parsed with them.",
 ["inputs","programs","configurations"],"every combination of rule file, added rules, texts, text files and the node-type switch",
 "The tool has no real test.",
 ["main/xbnf.go"],[("command line","main")],None,["standard output of the built tool"])
p("C26","Evaluation has no side effects and results share nothing",
 "Loading, parsing, searching, printing and simplifying change nothing but their own results: the grammar keeps behaving and printing the same, and a tree or result obtained earlier never changes through later calls. Changing a returned tree, or any character slice in it or handed out by a stream, never affects the grammar, the stream, or any other result.",
 ["histories","inputs"],"every history of calls and of caller-side modifications of returned values",
 "Aliasing shows only when a caller modifies or appends to a returned slice and then continues; no test does.",
 ["charstream.go","grammar.go","node.go","rule_reference.go","rule_eof.go","rule_terminal_chars.go"],
 [("fresh nodes per evaluation","Eval methods"),("copies of terminal text","node.Chars appends"),("slices handed out","CharstreamString.SkipSpaces, Match")],None,["snapshots of grammars, results and trees around later calls and modifications"])
p("C27","Tree accessors report the tree faithfully",
 "The text of a node is its own characters, or else its children's texts in order with one space inserted exactly in front of a non-empty child text that follows other text, unless the join already touches whitespace, the child and the sibling right before it are both sticky, or the node is a block; end-of-file has no text. Node, token and sticky counts equal those of a plain traversal (zero without a tree). The printed tree shows every node once, in order and indented below its parent, with position, name, marks and, at leaves, text; the printout of an evaluation result shows the characters read, those unused, and the node's tree or the error.",
 ["inputs","programs"],"every tree the parser can produce, before and after each simplification",
 "Tests use the text of a few trees as an oracle for parsing, not as a subject.",
 ["node.go","ast.go"],[("text","Node.Text, AST.Text"),("counts","CountNodes, CountTokens, CountStickyNodes"),("printing","StringTree, header")],None,["Node/AST accessors"])
p("C28","The grammar listing shows every rule",
 "Serializing a grammar lists every defined rule exactly once, in order of definition, with its line in the loaded text (or, if added later, a higher number of its own), its name, its definition as the rule prints it, and marks telling whether it is virtual and, as of the last validation, refers to no other rule. Asked for detail, every element of the definition (parts of blocks aside) follows in order, indented below the one it is part of. The roots listed are exactly the rules no definition refers to, the reference map gives for each other rule those that refer to it, once for each place, and looking up a name gives the rule defined under that name and nothing for any other name.",
 ["programs","histories"],"every loadable grammar and every order of loading, adding and validating",
 "No test inspects the listing or the reference map; both are kept up incrementally over loads, additions and rejections.",
 ["grammar.go","rule.go"],[("listing","Grammar.Serialize"),("reference map","Grammar.StringRuleRelation, Validate"),("look-up","Grammar.GetRule, GetRecord")],None,["Grammar.Serialize, StringRuleRelation, GetRule, GetRecord, Records, RootRules"])
p("C29","References, brackets and names are transparent",
 "Replacing a reference by the definition it names (in brackets if that is several elements or a choice), giving a part of a definition a name of its own and referring to it, putting an element other than an option in brackets, or renaming rules consistently never changes which texts match, how much is consumed, stickiness, or the matched leaves with their order and positions. Only names of nodes and the nodes of brackets and references themselves differ.",
 ["programs","inputs"],"every grammar, rule, place of the rewriting, and text",
 "Tests evaluate each grammar in the one form it was written in; a rule kind that behaves differently directly, in brackets or behind a reference goes unseen.",
 ["rule_reference.go","rule_group.go","rule_choice.go","rule_concatenate.go","rule_repetition.go","rule_block.go"],[("reference evaluation","RuleReference.Eval"),("group evaluation","RuleGroup.Eval")],None,["Grammar.EvalRule, IRule.Eval on both forms"])
p("C30","All ways of parsing agree",
 "Parsing or evaluating starts where the given stream stands and, on any stream that behaves like one (fresh, partly read, with characters put back, or of the caller's own type), gives what the rest of the text alone gives, with positions of the whole text; after a successful whole parse nothing is left on the stream. Evaluating a rule by name gives what evaluating that rule itself gives, and the result of each simplification level is the raw tree simplified by the documented steps. The first node of a whole parse is that of the root rule that matches most there.",
 ["inputs","configurations","histories"],"every grammar and text, stream type, stream state and simplification level",
 "Tests parse fresh string streams at one level each and never compare one way of parsing with another.",
 ["grammar.go","charstream.go","rule.go"],[("drivers","Grammar.Eval, EvalRaw, EvalRule"),("streams","ICharstream users")],None,["Grammar.Eval, EvalRaw, EvalRule, IRule.Eval on several stream types"])
p("C31","The shipped sample grammars parse their languages",
 "With the grammar files under main/samples, every JSON document (numbers without exponent, no escape but that of the quote), every sequence of arithmetic expressions separated by newlines and every property file parses at every simplification level, and the named nodes of the tree hold exactly what was written: the same objects, keys, members in order, arrays, strings, numbers and words; the same operands and operators with * and / binding closer than + and - and parentheses grouping; the same keys and values with escaped separators and continued lines (backslashes gone). Values start at the line and column where they were written. A document that ends early, closes too much or too little, or has a stray symbol between tokens is rejected.",
 ["inputs","configurations"],"every document of the three sample languages, with any whitespace the samples allow between tokens (numbers and names are not followed by digits across whitespace), and damaged ones",
 "The sample tests parse three fixed files each and compare them with stored output.",
 ["grammar.go","block.go","rule_group.go","rule_recurrence.go","main/samples"],[("samples","main/samples/*/*.xbnf"),("the library under a real grammar","Grammar.Eval")],None,["NewGrammarFromFile, Grammar.Eval at all levels"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        assert x["statement"].count('. ')<=2,(x["id"])
        f.write(json.dumps(x)+"\n")
print(len(P))
