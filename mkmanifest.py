#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
PATH='static path-sensitive abstract interpretation of the SSA form (value numbering, nullness, linear inequalities, loop summaries)'
claimed={
 'C04':(PATH+'; panic obligations discharged on every abstract path with inferred object invariants',
        'Every dereference, dynamic call, map write, type assertion, division and panic of the library, on every abstract path from every entry function. Assumes hosts use the constructors and pass non-nil library objects; trusts documented behaviour of the standard library.'),
 'C05':(PATH+'; bounds obligations discharged by entailment of linear facts',
        'Every index, slice and make expression of the library, on every abstract path from every entry function. Assumes lengths do not overflow int.'),
 'C01':('static field-sensitive inclusion-based points-to and effect analysis of the SSA form over the call graph of processing',
        'Every store, map write and modelled external write reachable from processing, against the objects reachable from engine, rules, package variables. Flow-insensitive; external functions by effect table.'),
 'C02':('static field-sensitive inclusion-based points-to and effect analysis (write and escape effects on host objects)',
        'Every write effect and every retention of host byte slices reachable from the host-facing calls.'),
 'C18':('static effect analysis over the call graph (who may call file, process and network functions), backward dataflow of file names, and path-sensitive abstract interpretation of the buffer and Close functions',
        'Every external call site with a file-system, process or network effect and every store to a file field.'),
 'C23':('static call-graph effect analysis (ambient inputs, goroutines, package variables of other packages) and map-iteration-order dataflow',
        'Every external call site and every map range of the library.'),
 'C14':(PATH+'; the verdict as Intervention shows it is compared before and after every library function, with loop-head invariants checked inductively',
        'Every abstract path of the Process methods, of Result, of the aborts, of SecRule.Do/Match and of every built-in action, variable, transformation and operator, from an arbitrary transaction. Nested parts are covered by the rule for parts (induction).'),
 'C15':(PATH+'; verdict and engine mode compared before and after every library function',
        'Every abstract path of Enable, the Process methods (Off), aborts and every built-in part (DetectionOnly); ActionsExecute for lists of any length.'),
 'C19':(PATH+'; the sequence of Do calls is derived as a composition of filtered traversals of the action list',
        'Action lists of any length; a way of ordering that is not built from forward traversals of slices is reported as undecided.'),
 'C24':(PATH+'; the verdict after deny, status and the aborts compared with the documented one',
        'Every abstract path of deny, status and the aborts from an arbitrary transaction, with every pending status and every stored datum.'),
 'C13':(PATH+'; phase position derived from what the Process methods test, rule traversal as an inductive loop summary, stores before the first rule compared with the arguments',
        'Every abstract path of the Process methods and AddRules from an arbitrary transaction; rule sets, headers and phases of any size.'),
 'C03':(PATH+'; enumeration of every cell reachable from the new transaction, with allocation ownership',
        'Every abstract path of every function that returns a new transaction, from an arbitrary engine; slice elements are not enumerated.'),
 'C26':(PATH+'; position of the evaluation before and after the flow actions, with phase readiness derived from the Process methods',
        'allow with each argument in each phase, skip with every count at every rule of rule sets of any size.'),
 'C11':(PATH+'; the fetched, transformed and matched values, the negation and the actions of a rule derived as nested traversals with conditions',
        'Variables, fetched values, transformations and sub-rules of any number, with any behaviour of the parts (interface calls are opaque); a way of combining results that is not a nest of traversals is reported as undecided.'),
 'C12':(PATH+'; chain conditions and actions derived as nested traversals, chain loading followed through the parser objects',
        'Chains of any length at run time; loading of every pattern of chained and unchained rules of up to eight directives.'),
 'C08':(PATH+'; a rule text with each name followed through scanner, name tables as the init functions leave them, and loader',
        'Every name of the README, of every name table and every name a part gives itself, in every role; both orders of ranging over tables. capture, setvar and XML are known findings.'),
 'C21':(PATH+'; conditions on directive texts turned into automata whose products with the documented words are explored completely',
        'All directive names and values over ASCII; lists of up to three directives; Execute for lists of any length.'),
 'C22':(PATH+' on symbolic texts (concatenations of constants and atoms standing for any text without given characters)',
        'Every form of every action, all ordered pairs of forms, two lists of all kinds, operator and variable texts with arbitrary arguments and selectors. Arguments without commas and inner quotes.'),
 'C25':(PATH+'; the phase of a rule text followed through loader and rule set to the Process method that evaluates it',
        'Every phase number, alias and the default. The numbering mismatch of scanner and engine is recorded as known findings, one per form; any other mapping is a violation.'),
 'C07':(PATH+'; rule texts with arbitrary arguments judged on every accepting path, error results of callees tracked to the return, read errors tracked by inductively checked invariants of the scanner',
        'Every argument of the actions, operators and selectors that take one, every name in every role; 100 malformed texts; every function of scanning, loading and executing.'),
 'C20':(PATH+'; number reading and regular expressions replaced by their documented outcomes',
        'Every argument and value: number, no number, above and below the range; every ordering of the two.'),
 'C27':(PATH+'; the loop over the text compared with a machine of the mapping, over all classes of characters or windows of bytes',
        'Every character in every state of the loop, or every window of bytes and length of the rest that the conditions of the loop and the mapping tell apart. A result that is not a stated library composition or one loop is reported as undecided.'),
 'C10':(PATH+'; a returned list is read as what the loops that built it add per member, and compared with the selection condition',
        'Every collection variable, any transaction, all sequences of up to two selectors (some of up to four) with arbitrary texts, and about 180 rule texts that combine selectors, exclusions and counts. Loops over collections of any size.'),
 'C09':(PATH+'; a returned list is read as what the loops that built it add per member of a collection, and compared with the data the name denotes',
        'Every variable and any transaction; body variables for ten kinds of content type, every method, switch and outcome of reading and parsing; about 1000 shapes of Cookie headers with arbitrary names and values, paths of up to four characters, and the requirement that neither depends on larger sizes. Library parsers by their documented results.'),
 'C16':(PATH+'; ghost cells record whether the body was parsed, with what outcome and whether the transaction was aborted; every ordered pair of body variables is evaluated one after the other',
        'Every variable that reads a body, for every switch, body length, outcome of parsing and reading; every ordered pair of variables within one transaction; a scan for body readers elsewhere. The outcomes of the standard parsers are those they document.'),
 'C17':(PATH+'; memory buffers, readers and files are ghost byte sequences of pieces with a position; histories are closed by induction (two writes leave the state of one)',
        'Both bodies, any limits, writes of any length and split, every order of the reading methods, every failing file creation and file write. Assumes that totals do not overflow and that seeking to the start of an open file succeeds; content after a storage failure and after Close is not specified.'),
 'C06':(PATH+'; every loop gets a ranking function found from the relation between the state at its head and at each way back, every call cycle a structural or flag argument',
        'All loops and call cycles of the library, from arbitrary states; every built-in part moves a transaction forward. Assumes that the standard library and host-provided readers and parts return, and that no rule is registered for a phase after the last.'),
}
na={
 'C28':'Correctness of the standard library parsers (net/url, mime/multipart, regexp) for every byte sequence: the decisive code is outside /repo, and a static argument in reach cannot decide byte-level conformance of those parsers; nothing in /repo can be pointed at as satisfying or violating it.',
 'C29':'SecLang quoting has no specification in the repository other than the scanner itself, and the pinned tests fix parts of it that differ from ModSecurity (an escaped line break stays in the text at some places and vanishes at others, the backslash of an unknown escape is dropped); there is no oracle independent of the code to decide against. What does not depend on it (unterminated texts, quotes removed, arguments kept) is in C07 and C22.',
 'C30':'Memory, disk and time are runtime quantities: regexp matching, header and form sizes are chosen by the sender and the standard library, and no static bound in terms of the configured limits is in reach.',
}
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[],
  notes='Static analysis only; no hooks in /repo. Known findings and repaired defects: known-findings.txt.')
for p in props:
    i=p['id']
    if i in claimed:
        t,n=claimed[i]
        m['checks'].append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',technique=t,level='other',level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason=na.get(i,'The static check for this property is not finished yet.')))
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
