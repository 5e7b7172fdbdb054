import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook='none: public API and existing seams (tokenizer, tagger, predicate, normalizer, morphology arguments) suffice'):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','One parser answers concurrent callers exactly as if each were alone',
 'Any number of threads may call match, find, findall, extract, or read facts of the resulting matches, on the same parser (or on parsers sharing a tokenizer, tagger, morphology or grammar parts) at the same time. Every caller gets exactly the matches, spans, trees and facts it would get calling alone on a fresh parser, whatever the interleaving, and every call finishes. After the calls the parser still gives the same answers.',
 ['schedules','configurations'],'all interleavings of any number of calls, all grammars/texts/parser methods, shared or separate tokenizers and taggers',
 'The tests are single threaded and call each parser once; they reach exactly one schedule.',
 ['yargy/parser.py','yargy/tokenizer.py','yargy/morph.py','yargy/pipelines.py','yargy/tagger.py','yargy/relations/graph.py','yargy/interpretation/interpretator.py','yargy/interpretation/normalizer.py'],
 [('per-call chart, states and nodes; the compiled rule is only read','yargy/parser.py Parser.chart/predict/scan/complete'),('per-call relation graph and interpretation','yargy/tree/transformators.py')],
 [('compiled start rule','shared by all calls','Parser.rule'),('morphology cache','shared by all calls of a tokenizer','yargy/morph.py CachedMorphAnalyzer')],
 ['return values of Parser.match/find/findall/extract, Match.fact/.tree/.span/.tokens'])
p('C02','Building parsers concurrently from shared grammar parts is safe',
 'Several threads may at the same time build parsers from, and render or print, grammars that share rules, predicates, pipelines, recursive references, relations and fact classes. Each resulting parser answers, and each rendering shows, exactly what it would have if it were produced alone. Nothing one thread builds or renders changes what another gets.',
 ['schedules','configurations'],'all interleavings of Parser construction, normalisation, BNF/graph rendering and calls of the built parsers, over all sharings of grammar parts',
 'No test builds two parsers from one rule, let alone concurrently.',
 ['yargy/rule/transformators.py','yargy/rule/bnf.py','yargy/rule/constructors.py','yargy/pipelines.py','yargy/predicates/bank.py','yargy/dot.py'],
 [('copying transformations with a per-build memo','yargy/rule/transformators.py RuleTransformator'),('activation of predicates and pipelines with the parser context','ActivateTransformator'),('automatic rule names assigned per build','yargy/rule/bnf.py BNF')],
 [('user grammar objects','shared by all builds','yargy/rule/constructors.py')],
 ['Parser(...) then its answers; rule.normalized/.as_bnf/.as_dot sources'])
p('C03','A grammar can be used any number of times, in any order',
 'Using a rule - building parsers from it with any tokenizer or tagger, normalising it, showing its BNF or graph, embedding it in bigger rules - never changes it. Every later use in the same process, in any order and any number of times, behaves exactly as the same use of a freshly written copy of the grammar would. This includes recursive rules, gazetteers, and rules shared between grammars with different tokenizers.',
 ['histories','configurations'],'all finite histories of uses of a set of grammar parts with shared sub-rules',
 'Each test builds its rule, uses it once and drops it.',
 ['yargy/rule/transformators.py','yargy/rule/bnf.py','yargy/parser.py','yargy/pipelines.py','yargy/interpretation/fact.py'],
 [('rule transformations return new rules','yargy/rule/transformators.py'),('pipeline scheme is activated into a new pipeline','yargy/pipelines.py PipelineScheme.activate'),('BNF conversion wraps shared sub-rules before naming them','yargy/rule/bnf.py BNFTransformator')],
 [('rule graph incl. forward references','what later uses start from','yargy/rule/constructors.py')],
 ['answers of every parser built in the history; BNF, normalised-rule and graph sources'])
p('C04','Matches are stable snapshots, independent of other candidates',
 'A match, once delivered, never changes: its span, tokens (with their grammatical forms), tree and fact read the same whenever and however often they are read, whatever else is parsed, read, consumed or modified meanwhile. Which candidates are delivered over a stretch of tokens, and their content, depends only on those tokens, never on candidates elsewhere in the text or on the order in which lazily produced matches are consumed. Changing an attribute of a fact affects no other fact or later reading.',
 ['histories','schedules'],'all orders of producing, reading, re-reading, mutating and dropping matches and facts of one or several calls',
 'Tests read one match once, immediately after producing it.',
 ['yargy/parser.py','yargy/tree/constructors.py','yargy/tree/transformators.py','yargy/relations/graph.py','yargy/interpretation/fact.py'],
 [('normalised copy of the chart tree per match','yargy/parser.py prepare_match'),('constraining by relations yields new tokens','yargy/tree/transformators.py ApplyRelationsTransformator, yargy/token.py constrained'),('facts are rebuilt on each reading','yargy/parser.py Match.fact')],
 [('chart nodes and leaves','shared by all candidate matches of one call','yargy/parser.py Chart')],
 ['Match.span/.tokens/.tree/.fact, Fact.spans/.as_json and attributes, at different times'])
p('C05','Lazy results and token streams are independent and may be abandoned',
 'Iterators of matches and token streams (from tokenizers and taggers) obtained from shared parsers and tokenizers can be advanced in any interleaving, kept alive for any time, closed or dropped half way, each by whatever thread currently owns it. Each delivers exactly the sequence it would deliver alone, and abandoning one affects nothing else.',
 ['schedules','histories'],'all interleavings of open/next/close/drop on any number of iterators over shared parsers, tokenizers, taggers',
 'Tests exhaust each iterator immediately with list() or a for loop.',
 ['yargy/parser.py','yargy/tokenizer.py','yargy/tagger.py','yargy/morph.py'],
 [('generator-local state only','yargy/tokenizer.py Tokenizer.__call__, MorphTokenizer.__call__'),('extract yields from a private chart','yargy/parser.py prepare_matches')],
 [],['items delivered by each iterator'])
p('C06','An interrupted parse leaves no damage and the interruption surfaces',
 'If parsing, reading a match or reading a fact is interrupted at any point by an exception delivered from outside (Ctrl-C, a time limit, cancellation, memory exhaustion), that exception reaches the caller unchanged. Every later call on the same parser, and on anything sharing its grammar, tokenizer, tagger or morphology, answers exactly as if the interrupted call had never been made; results delivered earlier are unaffected.',
 ['crash_points','histories'],'every executed line of a call as interruption point, every exception kind, any calls before, after and concurrently',
 'No test interrupts a call.',
 ['yargy/parser.py','yargy/tokenizer.py','yargy/morph.py','yargy/relations/graph.py','yargy/interpretation/interpretator.py','yargy/interpretation/fact.py'],
 [('no state outlives a call except completed morphology cache entries','yargy/parser.py, yargy/morph.py'),('no handler swallows exceptions','whole package')],
 [('morphology cache','only state written by a parse','yargy/morph.py')],
 ['exception seen by the caller; answers of later calls'])
p('C07','An interrupted build or rendering leaves the grammar intact',
 'If building a parser, or normalising, printing or drawing a grammar or a match tree, is interrupted at any point by an outside exception, that exception reaches the caller unchanged. Repeating the operation, and any other use of the same grammar parts, afterwards behaves exactly as with a freshly written copy of the grammar, and parsers built earlier from those parts keep answering the same.',
 ['crash_points','histories'],'every executed line of a build/rendering as interruption point, every exception kind, any later uses',
 'No test interrupts construction or rendering.',
 ['yargy/rule/transformators.py','yargy/rule/bnf.py','yargy/rule/constructors.py','yargy/pipelines.py','yargy/dot.py'],
 [('transformations build new rules and publish only the finished result','yargy/rule/transformators.py')],
 [('user grammar objects','survive the interrupted build','yargy/rule/constructors.py')],
 ['exception seen by the caller; answers and displays of later uses'])
p('C08','Failures of user code and input streams surface, never shorten results',
 'When user code called by the library (predicate function, normalizer function, custom relation, tokenizer, tagger, morphological analyser) or a dictionary/token stream fails at any point with any exception, the operation in progress fails with that very exception (or, for exceptions that end iteration, with an error caused by it). It never returns a partial, empty or default answer instead, and once the cause is gone the same parser gives complete answers.',
 ['fault_sequences','histories'],'every invocation of every callback and every item of every stream as failure point, every exception type, any sequence of failures',
 'Test callbacks never fail.',
 ['yargy/parser.py','yargy/predicates/bank.py','yargy/interpretation/normalizer.py','yargy/tokenizer.py','yargy/tagger.py','yargy/morph.py','yargy/relations/graph.py'],
 [('callbacks invoked directly, no exception handler between them and the caller','yargy/predicates/bank.py CustomPredicate, yargy/interpretation/normalizer.py FunctionNormalizer'),('token stream fully read before parsing','yargy/parser.py Chart')],
 [],['exception or result seen by the caller'])
p('C09','Answers are reproducible across processes and memory layouts',
 'The same program on the same input gives the same matches, facts, JSON, BNF and graph text in every process: answers do not depend on hash randomisation, on object addresses or their reuse by the allocator, or on when garbage is collected.',
 ['configurations','schedules'],'all hash seeds, all address assignments consistent with object lifetimes, all garbage-collection times',
 'A test run is one hash seed and one allocation pattern; expected values were chosen where the outcome is not visibly random.',
 ['yargy/pipelines.py','yargy/rule/transformators.py','yargy/rule/bnf.py','yargy/parser.py','yargy/relations/graph.py','yargy/span.py','yargy/dot.py','yargy/interpretation/normalizer.py','yargy/interpretation/fact.py','yargy/tokenizer.py'],
 [('ordered containers wherever order reaches the answer','yargy/pipelines.py predict, yargy/span.py resolve_spans'),('objects used as identity keys are kept alive','yargy/rule/transformators.py visited, yargy/parser.py states_index')],
 [('identity-keyed memo tables','valid only while the keyed object lives','yargy/rule/transformators.py, yargy/relations/graph.py, yargy/dot.py')],
 ['canonical results across processes with different hash seeds / simulated allocators'],
 'none in /repo: the simulator supplies the `id` function the modules see and the hash seed of the process')
p('C10','The morphology cache is invisible',
 'The forms a word gets are exactly those the underlying analyser gives for that word at any time, whatever was analysed before, however many other words were seen, in whichever threads, and with whichever other analysers in use in the same process. An analysis that failed is not remembered: the next request for that word asks the analyser again.',
 ['histories','schedules','fault_sequences'],'all histories and interleavings of word requests over several analysers, all cache sizes and evictions, failures at any request',
 'The tests never fill the cache (10000 entries), use one analyser and one thread, and the analyser never fails.',
 ['yargy/morph.py','yargy/tokenizer.py'],
 [('per-analyser least-recently-used cache of completed analyses','yargy/morph.py CachedMorphAnalyzer')],
 [('cache','word -> forms','yargy/morph.py CACHE_SIZE')],
 ['analyser(word), analyser.normalized(word), forms of tokens'])
p('C11','Reconfiguring one tokenizer affects nothing else',
 'Adding rules to, removing token types from, or resetting a tokenizer changes only the streams that tokenizer starts afterwards. Other tokenizers, the default rule set, the rule lists passed in, and streams already started keep producing exactly the tokens they would have; a rejected reconfiguration (bad argument, unknown type, invalid pattern) leaves the tokenizer as it was.',
 ['histories','schedules'],'all interleavings of add_rules/remove_types/reset/construct/split/stream steps over several tokenizers, with failures',
 'Tests configure one tokenizer before first use.',
 ['yargy/tokenizer.py'],
 [('reset compiles a fresh rule list and replaces the old one','yargy/tokenizer.py Tokenizer.reset/add_rules/remove_types')],
 [('rules, regexp, mapping, types','configuration of one tokenizer','yargy/tokenizer.py'),('default rules','shared default argument','yargy/tokenizer.py RULES')],
 ['tokens of every stream, in order; errors of check_type'])
p('C12','A failed graph drawing is never passed off as a picture',
 'Rendering a grammar or a match tree to SVG either returns the complete picture the drawing program produced for exactly that graph or raises an error. If the program is missing, fails, is killed or its output cannot be read, an error is raised; rendering can simply be repeated afterwards, and concurrent renderings never get each other\'s picture.',
 ['fault_sequences','schedules'],'all outcomes of starting and running the external program (spawn errors, exit codes, signals, partial output, undecodable output), all interleavings of renderings',
 'The tests never run the drawing program, successfully or not.',
 ['yargy/dot.py','yargy/rule/transformators.py','yargy/tree/transformators.py'],
 [('exit status checked before output is used','yargy/dot.py dot2svg')],
 [],['value or exception of the graph SVG representation'],
 'none in /repo: the process-spawning function is replaced by the simulator before the package is imported')
p('C13','Long-running use does not accumulate state',
 'A long-lived process may parse any number of distinct texts, build and drop any number of parsers and analysers, read any number of facts: once results and parsers are dropped, what they used becomes free again. Memory held by the library stays bounded by the live parsers and the fixed-size morphology caches, also when calls fail or are abandoned half way.',
 ['histories','fault_sequences'],'all unboundedly long histories of builds, calls, failures, abandoned iterators',
 'Tests make a handful of calls and do not look at what stays alive.',
 ['yargy/parser.py','yargy/morph.py','yargy/rule/transformators.py','yargy/tokenizer.py','yargy/interpretation/fact.py'],
 [('no module or class level containers grow with use','whole package'),('cache bounded and owned by its analyser','yargy/morph.py')],
 [('morphology cache','bounded','yargy/morph.py')],
 ['live objects after dropping results, over growing histories'])
p('C14','Tokens may be delivered any way and shared between parsers',
 'A parser gives the same answer however its tokens arrive: as a list, a lazy or slow stream, through a chain of taggers, or as token objects already used by another parser or an earlier call. Each stream is read once, in order and to the end, and the tokens a parser is given are never modified.',
 ['schedules','histories'],'all delivery patterns of all token sequences, all sharings of token objects between calls of several parsers, sequential or concurrent',
 'Tests pass text through the default tokenizer only; one documentation example shares tokens.',
 ['yargy/parser.py','yargy/tokenizer.py','yargy/tagger.py','yargy/token.py','yargy/relations/graph.py','yargy/predicates/bank.py'],
 [('token stream copied into the chart','yargy/parser.py Chart'),('tagging and constraining create new tokens','yargy/token.py tagged/constrained')],
 [],['answers per delivery; tokens before and after; read log of the stream'])
p('C15','User callbacks may call back into the library',
 'A predicate function, normalizer function, relation, tokenizer or tagger may itself use the library while it is being called - parse with the same or another parser, read matches, build parsers, reconfigure other tokenizers - to any depth. Both the inner and the outer operation give exactly the answers they would give separately.',
 ['schedules','configurations'],'every callback invocation as re-entry point, every inner operation, nested and combined with other threads',
 'No test calls the library from a callback.',
 ['yargy/parser.py','yargy/interpretation/normalizer.py','yargy/predicates/bank.py','yargy/tokenizer.py','yargy/tagger.py','yargy/morph.py'],
 [('all working state is local to a call','yargy/parser.py, yargy/tree/transformators.py')],
 [],['answers of inner and outer operations'])

W='Tests sample a handful of inputs.'
p('N01','Tokenization is lossless, ordered and typed by the first matching rule',
 'For every text the tokens are non-overlapping, in text order, each equal to the text at its span, and together cover every character except whitespace no rule accepts. Each token has the type of the first configured rule that matches there.',
 ['inputs','configurations'],'all texts, all rule sets',W,['yargy/tokenizer.py'],[('one alternation regexp in rule order','yargy/tokenizer.py Tokenizer.compile')])
p('N02','Matches are exactly the derivations of the grammar',
 'A span is matched if and only if its tokens can be derived from the grammar; a full match exists if and only if the whole text can be derived. This holds for recursive, ambiguous and empty-deriving rules.',
 ['inputs','programs'],'all grammars and token sequences',W,['yargy/parser.py'],[('Earley predict/scan/complete','yargy/parser.py Parser.chart')])
p('N03','findall returns a non-overlapping selection of maximum coverage',
 'The matches findall returns do not overlap, are in text order, come from the matches of the grammar, and no other non-overlapping selection covers more.',
 ['inputs'],'all sets of candidate spans',W,['yargy/span.py','yargy/parser.py'],[('weighted interval scheduling','yargy/span.py resolve_spans')])
p('N04','Ambiguity is resolved in the documented preference order',
 'Among several readings of a span the one preferred by alternative order and by the greedy or reversed repetition settings is delivered.',
 ['inputs','programs'],'all ambiguous grammars and texts',W,['yargy/tree/constructors.py','yargy/parser.py'],[('rank comparison of trees','yargy/tree/constructors.py Node.__lt__')])
p('N05','Optional and repeatable rules mean what they say',
 'Optional, repeatable and bounded repetition, alone and nested, accept exactly the corresponding numbers of repetitions after all simplifications.',
 ['programs','inputs'],'all nestings of repetition operators',W,['yargy/rule/transformators.py'],[('squash and replace transformations','yargy/rule/transformators.py')])
p('N06','Gazetteers equal the alternation of their entries',
 'A plain, caseless or morphological gazetteer accepts exactly the phrases the equivalent alternation of its entries accepts, and reports the entry as written.',
 ['inputs','programs'],'all entry lists and texts',W,['yargy/pipelines.py'],[('index of first words','yargy/pipelines.py PipelineBNFRule')])
p('N07','Agreement relations admit exactly agreeing readings',
 'A match under gender, number, case or combined agreement is delivered if and only if the related words have jointly agreeing grammatical forms, and exactly those forms remain.',
 ['inputs','programs'],'all related words and relation combinations',W,['yargy/relations/graph.py','yargy/relations/bank.py'],[('pairwise pruning of forms','yargy/relations/graph.py TokenRelationsGraph.validate')])
p('N08','Facts collect exactly the interpreted parts',
 'A fact holds for each attribute the normalised text of the part interpreted as that attribute (all of them for repeatable attributes), nested and merged facts included, and its spans and JSON agree with it.',
 ['inputs','programs'],'all interpretation annotations and matched trees',W,['yargy/interpretation/interpretator.py','yargy/interpretation/fact.py','yargy/interpretation/normalizer.py'],[('bottom-up interpretation of the tree','yargy/tree/transformators.py InterpretationTransformator')])
p('N09','Predicates and rule constructors validate and decide as documented',
 'Every predicate of the bank and every and/or/not combination decides tokens as documented; ill-typed arguments, unknown grammemes and token types are rejected when the rule or parser is built.',
 ['inputs','programs'],'all tokens, values and combinations',W,['yargy/predicates/bank.py','yargy/predicates/constructors.py','yargy/api.py','yargy/check.py'],[('assert_type checks and activation checks','yargy/check.py, yargy/predicates/bank.py activate')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P),'ok', [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
