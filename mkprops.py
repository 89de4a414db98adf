#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
M='modsecurity/'
prop('C01','Processing a transaction never modifies shared configuration',
 "Processing a transaction (constructing it, every Process*/Append*/Intervention/Result/Close call, and every built-in variable, transformation, operator and action these invoke) never writes to the engine, its limits or configuration, a rule set, a rule, a variable/transformation/operator/action object, a slice or map held by one of these, or any package-level variable. Hence transactions that share one engine and one rule set can run concurrently, and no request influences how another one is judged.",
 ['schedules','histories'],'every interleaving of any number of transactions over one engine and rule set, and every earlier history of requests',
 'The tests run single transactions one after the other; a data race or a state leak needs two particular transactions in a particular order or interleaving.',
 [M+'transaction.go',M+'sec_rule.go',M+'buffer.go',M+'actions/',M+'operators/',M+'transforms/',M+'variables/','utils/'],
 [('transaction-owned state only',M+'transaction.go Transaction'),('stateless operators, transforms and variables',M+'operators, transforms, variables')],
 ['go test -race with shared engine','verdicts of later transactions'])
prop('C02','Host-supplied URL, headers and body bytes are only read',
 "The URL, the request and response header maps (with their value slices) and the body byte slices that the host hands to a transaction are never written by the library, and the body slices are copied, never retained. The host can therefore forward or reuse exactly the message it submitted.",
 ['inputs','histories'],'every request and response, every rule set built from the built-in parts',
 'Tests never compare host data before and after processing, and a write may need one particular variable, header or method.',
 [M+'transaction.go',M+'buffer.go',M+'variables/'],
 [('copy before rewriting the URL',M+'variables/request_uri.go'),('fresh result maps and slices',M+'variables/filter.go, request_cookies.go'),('body copied into the buffer',M+'buffer.go Write')],
 ['host-held URL, Header and []byte after each Process*/Append* call'])
prop('C03','Every new transaction starts clean and owns its state',
 "Creating a transaction either fails with an error and no transaction, or yields one with no verdict, no abort, no connection, request or response data, empty variable cache, empty data, empty bodies bound to the engine's limits and temp directory (request body: in-memory limit and total limit; response body: response limit), positioned before the first phase. All its mutable state is freshly allocated, so nothing is shared with or inherited from another transaction.",
 ['histories','configurations'],'every sequence of earlier transactions on the same engine; every engine configuration',
 'Tests create few transactions and never look for state inherited from an earlier one.',
 [M+'transaction.go',M+'engine.go',M+'buffer.go'],[('NewTransaction',M+'transaction.go'),('newBuffer',M+'buffer.go'),('Engine.NewTransaction',M+'engine.go')],
 ['NewTransaction result'])
prop('C04','No input makes processing or configuration panic on nil, a type or a map',
 "For every SecLang text, and for every connection, URL (or none), header set (or none), method and body given to a transaction in any order of calls, no library code dereferences a nil pointer, calls a nil function or method, writes a nil map, fails an unchecked type assertion, divides by zero or raises an explicit panic.",
 ['inputs','histories'],'every input and every order of host calls, over transactions made by the constructors and rules with an operator',
 'Tests supply well-formed inputs in the usual order; a crash needs a missing URL, an absent header map, a malformed body evaluated twice, and so on.',
 [M+'transaction.go',M+'sec_rule.go',M+'variables/','seclang/','seclang/parser/'],
 [('nil checks before use',M+'variables/*.go'),('comma-ok assertions','seclang/rules.go, '+M+'variables/args_posts.go'),('constructors fill every reference',M+'transaction.go NewTransaction')],
 ['process survival'])
prop('C05','No input causes an out-of-range index or slice',
 "For every SecLang text and every request or response, every slice, string and array index or slice expression evaluated by the library is within bounds; in particular the scanner, the URL decoder, the selector and cookie parsers, the path basename and the body buffer never run past their input.",
 ['inputs'],'every input string, body size and limit, rule offset and jump target',
 'The tests use a few dozen strings; overruns need truncated escapes, empty pieces or exact boundary lengths.',
 ['utils/urlencode.go','seclang/parser/scanner.go','seclang/parser/utils.go',M+'variables/filter.go',M+'variables/request_basename.go',M+'variables/request_cookies.go',M+'buffer.go',M+'transaction.go',M+'sec_rule.go'],
 [('length guards before every index','utils/urlencode.go urldecode'),('offset guard',M+'sec_rule.go Process'),('exact count of pieces','seclang/parser/utils.go splitMulti')],
 ['process survival'])
prop('C06','Parsing, decoding and rule evaluation always terminate',
 "Every loop of the library makes progress towards its exit on every iteration: scanner loops consume input or stop, and always stop at end of input; decoders and splitters consume at least one byte per iteration; the rule loop moves forward through the phase whatever built-in actions run; and there is no unbounded recursion. No SecLang text and no request can make configuration or processing hang.",
 ['inputs','configurations'],'every SecLang text, every request, every rule set made of built-in parts',
 'A hang needs a specific odd input (for example a stray backslash) that no test contains.',
 ['seclang/parser/scanner.go','seclang/parser/utils.go','utils/urlencode.go',M+'variables/request_basename.go',M+'variables/request_cookies.go',M+'transaction.go',M+'sec_rule.go',M+'actions/'],
 [('every scanner loop advances or returns','seclang/parser/scanner.go'),('next rule only moves forward',M+'transaction.go Next, JumpTo'),('phase jumps leave the rule loop',M+'transaction.go processPhase')],
 ['process liveness'])
prop('C07','Invalid configuration is always rejected with an error',
 "SecLang text with an unknown directive, variable, operator, action or transformation, an unparsable id, phase, status, severity or skip/allow argument, a phase outside 1-5, a severity outside 0-7, an invalid regular expression, an unknown directive value, a missing part, an unterminated string or an unfinished chain makes loading return an error and no rule set; no error met while scanning, compiling or executing directives is ever dropped or turned into success. No rule or action that was accepted is silently left out.",
 ['inputs'],'every SecLang text; every failing callee on every path',
 'Tests sample a handful of bad inputs; a dropped error or an unchecked lookup on another path accepts a rule that then protects nothing.',
 ['seclang/','seclang/parser/scanner.go','seclang/parser/seclang_token.go',M+'operators/'],
 [('error propagation','seclang/*.go, seclang/parser/scanner.go'),('has==false => error','registries in seclang/*.go'),('range checks','seclang/parser/scanner.go actionProcessors')],
 ['error results of AllDirective, NewDireSetFromSecLangString, AddSecLangString, Execute'])
prop('C08','Every SecLang name selects the implementation of that name',
 "For every variable, operator, action and transformation name of SecLang that the README lists as supported, the text name is accepted and the compiled rule contains the implementation whose own name is exactly that (metadata actions record their value under their own name); no two names share a token and no name selects another name's implementation.",
 ['programs','configurations'],'every name in the four vocabularies, in both tables (text to token, token to implementation)',
 'Tests cover a part of the names and rarely go from text to behaviour; one swapped table entry silently changes what a rule inspects.',
 ['seclang/parser/seclang_token.go','seclang/variable.go','seclang/operators.go','seclang/actions.go','seclang/trans.go',M+'variables/',M+'operators/',M+'actions/',M+'transforms/','README.md'],
 [('name tables','seclang/parser/seclang_token.go'),('factories','seclang/*.go'),('Name methods',M+'*/')],
 ['Name() of the parts of a compiled rule'])
prop('C09','Each variable yields exactly its documented transaction data',
 "Each variable returns precisely the transaction data its name denotes, all of it and nothing else: scalar variables one value equal to the corresponding field (address, method, protocol, path, query, URI without scheme/host/userinfo, basename, status, content type/length, bodies), collection variables all values (or all names) of query arguments, body arguments, cookies or headers, ARGS* the union of query and body, and a count variable the number of values of what it counts. Absent data (no URL, no headers, no body) yields no value rather than another source's value.",
 ['inputs'],'every request and response, every variable',
 'Tests use one or two fixtures per variable; reading a wrong or incomplete source shows only for other inputs.',
 [M+'variables/'],[('Fetch methods',M+'variables/*.go'),('readCookie',M+'variables/request_cookies.go'),('merger',M+'variables/merge.go'),('CountVariable',M+'variables/count.go')],
 ['Variable.Fetch results'])
prop('C10','Selectors include and exclude exactly the named members',
 "A collection variable yields a member if and only if (it has no include selector, or the member name equals an include string or matches an include regex) and the name neither equals an exclude string nor matches an exclude regex; text between slashes is a regex, anything else an exact name, and an invalid regex is an error. In a rule, `VAR:sel` adds an include to that variable, `!VAR:sel` adds an exclude, `&VAR:sel` selects in the counted variable, and a variable also listed without selector is inspected as a whole.",
 ['inputs','configurations'],'every combination of selectors and member names; every variable list of a rule',
 'Tests cover single selectors; combinations (string with regex, include with exclude, with and without selector) and the side they fail on are unbounded.',
 [M+'variables/filter.go',M+'variables/merge.go',M+'variables/count.go','utils/strings.go','seclang/variable.go'],
 [('filter.FetchWithNames, Include, Exclude',M+'variables/filter.go'),('merger forwards selectors',M+'variables/merge.go'),('applyVariables','seclang/variable.go')],
 ['Variable.Fetch results','compiled rule variables'])
prop('C11','A rule matches iff some transformed value satisfies its operator',
 "A rule matches exactly when processing is not aborted and at least one value of at least one of its variables, after all the rule's transformations are applied in order, makes the operator true (false when negated). No variable, value or transformation is skipped, reordered or applied to something else, and negation applies to each value.",
 ['inputs','programs'],'every rule and every list of values',
 'Tests use one variable and at most one transformation; skipping a later value or transformation needs several.',
 [M+'sec_rule.go'],[('Match, FetchAllTransformedVariables, TransformVariable, TransformString',M+'sec_rule.go')],['SecRule.Match'])
prop('C12','A chain acts only if all its rules match, and never in parts',
 "The actions of a rule run only if the rule itself and every rule chained to it match, and then the actions of the first rule and of each chained rule all run, each once. When loading SecLang, a rule that follows a rule with the chain action is attached to the first rule of that chain, in order, and is never added as a rule of its own; the first rule without the chain action ends the chain, and rules outside chains stay independent.",
 ['programs','inputs'],'every rule sequence and chain length; every subset of matching rules',
 'Tests contain one short chain; partial matches, three-rule chains and rules after a chain are not enumerated.',
 [M+'sec_rule.go','seclang/rule_set.go','seclang/actions.go'],[('SecRule.Do',M+'sec_rule.go'),('DireSet.AddSecLangString','seclang/rule_set.go')],['rules of the engine','actions run'])
prop('C13','Host data is stored, then its phase runs every rule once, in order',
 "Each Process call first records the host's data in the matching transaction fields and then runs its own phase: all rules registered for that phase, from the first, each once and in registration order, unless a verdict, an abort or a flow action ends the phase; rules of other phases do not run. A phase runs at most once per transaction and never after a later phase has run or been jumped to, and rules registered for a valid phase are stored under exactly that phase.",
 ['histories','programs'],'every order and repetition of host calls, every rule set and jump target',
 'Tests call the phases once in the usual order with one rule; repetition, reordering, several rules and jumps are histories.',
 [M+'transaction.go',M+'sec_rule.go'],[('Process* methods, ProcessPhase, processPhase, Next, JumpTo, JumpToPhase',M+'transaction.go'),('SecRuleSet.AddRules, Process',M+'sec_rule.go')],
 ['rules run per call','CurrentPhase, CurrentRule, NextRule'],[('currentPhase/currentRule/nextRule/processedPhase','position in the rule set',M+'transaction.go Transaction')])
prop('C14','A blocking verdict is kept, reported once, and stops rule evaluation',
 "After an action or an abort has made the verdict disruptive, no further rule runs in that phase or in a later one until the host collects the verdict, and until then only an explicit pass action (or block, when the default actions contain pass) can withdraw it. Result returns a snapshot of the verdict (status, URL, pause, log, disruptive flag) unaffected by later changes; it resets the verdict to 200/not disruptive/empty log only if processing was not aborted. An abort is permanent: it is never cleared and no rule matches or runs after it; unless the engine is in DetectionOnly it makes the verdict disruptive with the given status, and every later Result is still disruptive.",
 ['histories'],'every sequence of actions, aborts, phases and Result calls',
 'Tests look at a single verdict after a single action; losing or repeating one takes a multi-step history.',
 [M+'transaction.go',M+'sec_rule.go',M+'actions/deny.go',M+'actions/pass.go'],[('processPhase stop conditions, Result, Intervention, AbortWith*',M+'transaction.go'),('ActionDeny.Do, ActionPass.Do',M+'actions')],
 ['Transaction.Result, Intervention'])
prop('C15','SecRuleEngine On, Off and DetectionOnly are honoured',
 "With the engine off no rule runs in any phase; with DetectionOnly rules run and non-disruptive actions (data, log, flow) take effect but no disruptive action runs and neither rules nor aborts make a verdict disruptive or change its status; with the engine on, which is the default, everything applies. Enable sets exactly one of these modes, and an unknown mode changes nothing.",
 ['configurations','programs'],'every mode, rule and action',
 'Tests only check the two flags that Enable stores.',
 [M+'engine.go',M+'transaction.go',M+'sec_rule.go'],[('Enable, NewEngine',M+'engine.go'),('mode checks',M+'transaction.go processPhase, AbortWithStatus; '+M+'sec_rule.go ActionsExecute')],['verdicts in each mode'])
prop('C16','Body inspection is gated by its switch and fails closed',
 "Request (response) body data reaches rules only if request (response) body access is on and the body is non-empty. If the body does not fit in memory, a variable that needs it aborts the transaction with a disruptive 413 (request) or 500 (response) instead of offering a truncated body; a body parse error is recorded, never replaced by a result, and a body is parsed at most once per type, with every later use seeing the same result.",
 ['inputs','configurations','histories'],'every body, content type, limit and rule order',
 'Oversized and malformed bodies evaluated by several rules are not in the tests.',
 [M+'variables/request_body.go',M+'variables/request_body_parser.go',M+'variables/response_body.go',M+'variables/args_posts.go',M+'variables/args_post_names.go',M+'buffer.go'],
 [('access and length gates',M+'variables/*body*.go'),('AbortWithError on over-limit',M+'variables'),('VariableCache',M+'variables/request_body_parser.go')],
 ['Variable.Fetch results, Result, RequestBodyError'])
prop('C17','Body buffers store every accepted byte once and enforce their limits',
 "A body write is either rejected with an error and stores nothing, or stores every given byte exactly once after the previous ones: it is rejected when the total would exceed the total limit or after reading has begun. Content is in memory while the total is within the memory limit and complete in the temporary file above it; reads return the stored bytes from the start, once; the in-memory text of a body that spilled to disk is never returned without the out-of-memory-limit error; and errors from storage are returned.",
 ['inputs','histories','fault_sequences'],'every sequence of write sizes against every pair of limits; every failing file operation',
 'The tests write sizes aligned with the limit; splits across the limit and interleaved reads are unbounded.',
 [M+'buffer.go',M+'transaction.go'],[('buffer.Write, initRead, Read, String, Bytes',M+'buffer.go'),('AppendRequestBody, AppendResponseBody',M+'transaction.go')],
 ['AppendRequestBody/AppendResponseBody errors','body variables'],[('length/memLimit/fileLimit/memBuf/fileBuf/readed','buffer state',M+'buffer.go')])
prop('C18','The file system is touched only for body temp files under TmpPath',
 "The library performs no file-system, process or network operation except: creating the configured temporary directory (owner-only), and creating (with an unpredictable name inside that directory), writing, reading, closing and removing the temporary files of body buffers. The file removed on close is the one that was created, and a transaction can release both its bodies' files.",
 ['inputs','configurations'],'every path through the library, every configuration',
 'Tests cannot observe the absence of other file operations for all inputs.',
 [M+'buffer.go',M+'transaction.go',M+'variables/request_body_parser.go'],[('newBuffer, makeBufferDir, Write, Close',M+'buffer.go'),('Transaction.Close',M+'transaction.go')],['system calls'])
prop('C19','Actions of a matched rule run once each, group by group, in order',
 "When a rule's actions execute, every action runs exactly once, in the group order metadata, data, non-disruptive, disruptive, flow, and in listed order inside a group; each built-in action belongs to its group (status: data; log: non-disruptive; deny, block, pass, allow: disruptive; skip: flow). So data set by a rule is available to its disruptive action however the rule is written. (In DetectionOnly the disruptive group is left out.)",
 ['programs'],'every action list',
 'Tests run lists of one or two actions already in the right order.',
 [M+'sec_rule.go',M+'actions/'],[('ActionsExecute',M+'sec_rule.go'),('ActionGroup methods',M+'actions/*.go')],['order of Action.Do calls'])
prop('C20','Comparison and regex operators decide exactly their relation',
 "eq, ge, gt, le and lt hold exactly when the value, read as a trimmed decimal number (0 if it is not a number, the nearest representable number if out of range), is equal to, at least, greater than, at most or less than the trimmed numeric argument; rx holds exactly when the argument, as a regular expression, matches somewhere in the value. An argument that is not a number (a valid regex) is refused when the operator is made, and matching never depends on earlier matches.",
 ['inputs'],'every pair of value and argument, in each of the three orderings',
 'Tests sample a few pairs per operator.',
 [M+'operators/compare.go',M+'operators/rx.go'],[('NewOperator*, OperatorCompare.Match, OperatorRx.Match',M+'operators')],['Operator.Match'])
prop('C21','Each SecLang directive changes exactly the engine setting it names',
 "SecRequestBodyAccess and SecResponseBodyAccess set the request (response) body access switch to true for On and false for Off and touch nothing else; SecRuleEngine On/Off/DetectionOnly selects that mode; values are recognised case-insensitively and as whole words, directive names case-insensitively; SecRule adds its rule to the engine's rule set. Directives take effect in the order written, all of them or up to the first error.",
 ['programs','configurations'],'every directive, every value, every sequence',
 'Tests do not cover each directive with each value through to the engine.',
 ['seclang/rules.go','seclang/sec_rule.go','seclang/rule_set.go','seclang/parser/scanner.go','seclang/parser/seclang.go','seclang/parser/seclang_token.go',M+'engine.go'],
 [('FromSecLang, Execute','seclang/rules.go'),('Bool/TriBool factories, ReadValue','seclang/parser/scanner.go'),('Register*','seclang/parser')],['Engine fields after Execute'])
prop('C22','A rule is compiled with exactly the parts its text gives it',
 "The compiled rule carries the id, phase (the number 1-5 or the alias request=2, response=4, logging=5; 2 when absent), negation, operator and operator argument, transformations and actions of its text, each once and in the order written, with their own arguments (quotes removed), and metadata (tag, msg, rev, ver, severity, logdata) is recorded under its name. Operator text without @ is a regex, a leading ! negates, and a variable's ! & and :selector are read as exclusion, count and selector of that variable.",
 ['programs','inputs'],'every rule text',
 'Tests compare the parse of a few rules and hardly ever the compiled rule.',
 ['seclang/sec_rule.go','seclang/actions.go','seclang/operators.go','seclang/trans.go','seclang/variable.go','seclang/parser/scanner.go'],
 [('applyActions, applyOperator, applyTrans','seclang/*.go'),('ReadVariables, ReadOperator, ReadActions, processAction','seclang/parser/scanner.go')],['SecRule fields'])
prop('C23','A verdict depends only on rules, configuration and supplied data',
 "Processing and rule compilation consult no clock, random source, environment, user, network or other ambient input and start no goroutine; the only external state involved is the content of the transaction's own temporary files. The same rules, configuration and data therefore give the same verdict on every host and run.",
 ['schedules','inputs'],'every execution of every processing and compiling path',
 'One run per test cannot show independence from ambient state.',
 [M,'seclang/','utils/'],[('no ambient calls','call graph of the library')],['verdicts across runs'])
prop('C24','A denied request always carries a valid error status',
 "When deny makes the verdict disruptive, the status is the pending non-200 status if there is one, else the status set by a status action if it is within 100-599, else 403; the log entry of the denial names that status. The status action stores its number where deny looks for it. An abort uses the code it is given.",
 ['programs','inputs'],'every status argument and action combination',
 'Tests try single statuses.',
 [M+'actions/deny.go',M+'actions/status.go',M+'transaction.go'],[('ActionDeny.Do',M+'actions/deny.go'),('ActionStatus.Do',M+'actions/status.go'),('AbortWithStatus/AbortWithError',M+'transaction.go')],['Intervention.Status'])
prop('C25','A rule of phase N runs in the engine phase that SecLang calls N',
 "The phase numbers of SecLang (1 request headers, 2 request body, 3 response headers, 4 response body, 5 logging) denote the same processing step in the rule language and in the engine that dispatches rules.",
 ['programs'],'each of the five phase numbers',
 'The one example test that crosses both layers pins the wrong numbering.',
 ['seclang/parser/seclang_token.go','seclang/actions.go',M+'sec_rule.go',M+'transaction.go'],[('phase constants','seclang/parser/seclang_token.go, '+M+'sec_rule.go')],['which Process* call runs a phase:N rule'])
prop('C26','allow and skip redirect evaluation exactly as specified',
 "allow ends the current phase and resumes at the logging phase, allow:request at the response header phase, allow:phase at the next phase; if that point has been reached already, the rest of the current phase is skipped and the next phase follows, so evaluation never goes back. The phase evaluation resumes at does run. skip (skip:N) leaves out exactly the next 1 (N) rules of the phase, ending it if there are not more.",
 ['programs','histories'],'every phase in which the action can run, every argument, every rule position',
 'Tests call the action once from one phase.',
 [M+'actions/allow.go',M+'actions/skip.go',M+'transaction.go'],[('ActionAllow.Do',M+'actions/allow.go'),('ActionSkip.Do',M+'actions/skip.go'),('JumpTo, JumpToPhase, NextPhase',M+'transaction.go')],['rules run after the action'])
prop('C27','Each transformation applies exactly its documented mapping',
 "none returns its input and lowercase its lower-case form; removeNulls drops and replaceNulls replaces by a space every NUL and no other character; removeWhitespace drops every whitespace character; compressWhitespace turns each run of whitespace into one space; urlDecode replaces each valid %XX by its byte and + by a space and leaves everything else, including invalid escapes, unchanged; urlDecodeUni additionally decodes %uXXXX (and full-width forms %uFFXX to ASCII). No transformation depends on the transaction or on earlier calls.",
 ['inputs'],'every input string',
 'Tests sample one to three strings per transformation.',
 [M+'transforms/','utils/urlencode.go'],[('Trans methods',M+'transforms'),('urldecode, IsHex, UnHex','utils/urlencode.go')],['Trans results'])
prop('C28','Multipart, query and regex parsing follow their standards byte for byte',
 "Query strings, urlencoded and multipart bodies, media types and regular expressions are interpreted as their standards (and the protected application) interpret them, for every byte sequence.",
 ['inputs'],'every byte sequence','Differences between parsers show only on particular malformed inputs.',
 [M+'variables/request_body_parser.go',M+'variables/args_gets.go',M+'operators/rx.go'],[('standard library parsers',M+'variables')],['Fetch results'])
prop('C29','Rule text keeps its meaning through SecLang quoting and escaping',
 "An operator argument or action argument reaches the compiled rule with exactly the characters its quoted form denotes, in particular backslash escapes of regular expressions and commas inside quotes.",
 ['inputs'],'every quoted string','Tests contain few escapes, and pin some of them.',
 ['seclang/parser/scanner.go'],[('readString','seclang/parser/scanner.go')],['Operator.Args'])
prop('C30','Resource use per request is bounded by the configured limits',
 "The memory, disk and time that one transaction uses are bounded by a function of the configured limits and the rule set.",
 ['inputs','configurations'],'every request','Worst cases are not in the tests.',
 [M+'buffer.go',M+'variables/request_body_parser.go'],[('Limits',M+'engine.go')],['process memory, TmpPath usage'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
