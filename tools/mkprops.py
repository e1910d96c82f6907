import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})
SQL='gb/hypergraph/sql.py'; ED='gb/hypergraph/edge.py'; SY='gb/hypergraph/symbol.py'; HG='gb/hypergraph/hypergraph.py'
LITE='gb/hypergraph/sqlite.py'
DBST=[('vertices table','entity text -> degree, timestamp',SQL),('perms table','every stored edge in every order, with the number of the order',SQL)]
WF='Well-formed edges: tuples of two or more entities, an entity being a symbol without white space or parentheses that does not read as a number, an integer, a finite float, or such an edge.'
hist='every finite history of operations on a store, for every well-formed edge and every number of elements'

p('G01','Membership follows the history of adds and removes',
 'In the hypergraph store, an edge exists exactly if it was added and neither removed nor erased by destroying the hypergraph since; adding an edge that exists or removing one that does not changes nothing, and no operation on one edge changes whether any other edge exists. '+WF,
 ['histories','inputs'],hist,
 'Tests add and remove a handful of 3-element edges once; histories, other arities, nesting orders, odd symbols and shared prefixes are never combined.',
 [SQL,ED,LITE],[('existence check, add and remove of one edge','SQL.exists, SQL.add_raw, SQL.remove_raw'),('row writes','SQL.update_or_insert'),('erasing','SQL.destroy')],['exists','add','remove','destroy'],DBST)
p('G02','Asking for the edges of an entity returns exactly the edges containing it',
 'For every entity, atomic or an edge, the query for the edges around it returns exactly the stored edges that have it as one of their direct elements, each as the original edge with its elements in the original order. This holds whatever else is stored, including entities whose text begins like, or is nested in, the one asked for.',
 ['histories','inputs'],'every reachable store, every entity as center',
 'Tests ask for one symbol with one stored edge; nothing asks for an edge as center, for prefixes or for larger edges.',
 [SQL,ED],[('prefix range over permutations','SQL.star, SQL.str2perms, str_plus_1'),('decoding of rows','cur2edges, unpermutate')],['star'],DBST)
p('G03','Pattern queries return exactly the matching edges',
 'A pattern query with any combination of given entities and wildcards returns exactly the stored edges with the same number of elements as the pattern that agree with it at every position that is not a wildcard. This includes patterns made only of wildcards and patterns without any.',
 ['histories','inputs'],'every reachable store, every pattern of length two or more',
 'Tests try four patterns of three elements over two edges; the lexicographic range trick and the row decoding must be right for every arity, prefix and nesting.',
 [SQL,ED],[('range query and filter','SQL.pattern2edges, edge_matches_pattern'),('all orders are stored','do_with_edge_permutations, nthperm')],['pattern2edges'],DBST)
p('G04','Looking up a root returns exactly the stored symbols with that root',
 'For every root (non-empty text without slashes, white space, parentheses or a colon), the lookup of symbols by root returns exactly the symbols whose text starts with the root followed by a slash and that are direct elements of a stored edge.',
 ['histories','inputs'],'every reachable store, every root',
 'Tests use one root and two symbols; roots that are prefixes of others, symbols at other positions and removal in other orders are not tried.',
 [SQL],[('range query over permutations','SQL.symbols_with_root')],['symbols_with_root'],DBST)
p('G05','The degree of an entity is how often it occurs in the stored edges',
 'At every moment the degree of an entity, atomic or an edge, equals the number of its occurrences as a direct element of the edges then stored (an edge with the entity twice counts twice), and 0 if there is none; it is never negative. Adding or removing an edge changes only the degrees of its own elements.',
 ['histories','inputs'],hist,
 'Tests look at degrees of two symbols after two adds and two removes; repeated elements, edges inside edges, re-adding and removal orders are not combined.',
 [SQL],[('counting','SQL.inc_degree, SQL.dec_degree, SQL.add_raw, SQL.remove_raw, SQL.degree')],['degree'],DBST)
p('G06','Timestamps record when an entity entered the hypergraph and do not change',
 'When an edge is added, the edge and every element of it that the hypergraph did not know yet get the timestamp given; entities it knows keep theirs whatever is added or removed later. Entities stay known until the hypergraph is destroyed, except that a stored edge stops being known, and its timestamp reads -1 like that of anything unknown, when it is removed while no stored edge contains it.',
 ['histories','inputs'],hist+', every timestamp',
 'Tests check one timestamp per entity in one history.',
 [SQL],[('rows written once','SQL.add_raw, SQL.add_str, SQL.remove_raw, SQL.timestamp')],['timestamp'],DBST)
p('G07','Listing the hypergraph visits every known entity once with its degree',
 'Listing all vertices applies the given function exactly once to every entity the hypergraph knows (everything that was added as an edge or as a direct element of one since it was last destroyed, except edges removed since while no stored edge contained them), passing the entity itself with its degree, and yields exactly the results.',
 ['histories','inputs'],'every reachable store, every function without effects on the store',
 'Tests list ten entities after one history.',
 [SQL,ED],[('listing','SQL.f_all')],['f_all'],DBST)
p('G08','Batches do what their operations do one after another',
 'Adding or removing several edges at once, and executing functions as a batch (including functions that query, add several edges or start batches themselves), has the same effect on the hypergraph as doing the single operations one after another in that order. Afterwards, even if one of the functions failed, the hypergraph can be used as before, with the changes made until then.',
 ['histories','inputs','fault_sequences'],'every sequence of operations grouped into batches in every way, with a failure of a function at any point',
 'Tests batch two adds and two removes; queries, degrees, nested batches and failures inside of batches are not tried.',
 [SQL],[('shared cursor','SQL.open_cursor, SQL.close_cursor, SQL.add, SQL.remove, SQL.batch_exec')],['add','remove','batch_exec'],[('cur','cursor shared by a batch',SQL)])
p('G09','Finished operations are durable and visible to other connections',
 'Once an operation or batch on a SQLite hypergraph has returned, its changes are committed: another connection to the same file, or a later process opening it, sees exactly the same hypergraph. Opening an existing database never changes what it contains.',
 ['histories','crash_points','configurations'],'every history, with the database reopened or read by another connection after any finished operation',
 'Tests always read through the connection that wrote; a missing commit is invisible to them.',
 [SQL,LITE],[('commits','SQL.close_cursor, SQL.remove_edge_permutation'),('tables are created if missing','SQLite.create_tables')],['a second connection'],DBST)
p('G10','Beliefs: a fact is kept exactly as long as a source supports it',
 'After a belief is added, the fact exists and the source is among its sources; the sources of a fact are exactly those from which a belief in it was added and not removed. Removing a belief takes that source away and removes the fact exactly if no source is left; other facts and sources are unaffected, and adding beliefs for several facts at once equals adding them one by one. (Facts are edges other than the records of sources that beliefs themselves leave.)',
 ['histories','inputs'],'every history of belief operations mixed with others, every fact and source',
 'Tests use one fact and two sources in one order.',
 [HG],[('beliefs as edges','HyperGraph.add_belief, HyperGraph.sources, HyperGraph.remove_belief')],['add_belief','sources','remove_belief'])
p('G11','Removing by pattern removes the matching edges and nothing else',
 'Removing by pattern removes exactly the stored edges that match the pattern; every other edge stays.',
 ['histories','inputs'],'every reachable store, every pattern',
 'No test calls it.',
 [HG],[('query, then remove','HyperGraph.remove_by_pattern')],['remove_by_pattern'])
p('G12','A buffered hypergraph loses no edge, order or timestamp',
 'Edges and beliefs added through a buffering hypergraph, followed by a flush, leave the underlying hypergraph as if they had been added to it directly, in that order and with their timestamps; it never keeps more edges waiting after an operation than its limit, and flushing with nothing waiting changes nothing.',
 ['histories','inputs','configurations'],'every sequence of additions and flushes, every buffer limit',
 'No test uses the buffered hypergraph.',
 ['gb/hypergraph/batch_hypergraph.py'],[('buffer','BatchHyperGraph.add, BatchHyperGraph.flush')],['add','flush','the underlying hypergraph'])
p('G13','The neighbourhood of an entity is everything within the given depth',
 'The neighbourhood of an entity at depth d is exactly the set of edges reached in at most d steps: for d of 1 or more the edges containing the entity, together with the neighbourhoods at depth d-1 of the elements other than the first of those edges, and no edges for d of 0 or less.',
 ['inputs','histories'],'every reachable store, entity and depth',
 'No test calls it.',
 [HG],[('recursion over stars','HyperGraph.ego')],['ego'])
p('G14','Intersections keep exactly the edges on shortest connections of the seeds',
 'Given seeds, take the edges of their neighbourhoods of depth two without a non-first element of degree above 250, and the walks without repetition from the first seed, stepping from an entity to a non-first element of a common edge, that end on first having met all seeds. A walk counts if no walk through any of its non-seed entities is shorter; the result holds exactly those of the edges whose non-first elements are all on walks that count.',
 ['inputs','histories'],'every reachable store and every non-empty list of seeds',
 'No test calls it.',
 ['gb/hypergraph/queries.py'],[('walk search and filtering','intersect, walks, walks2wmap, valid_walk, interedge, include_edge')],['intersect'])
p('G15','The facade passes every operation to the chosen backend unchanged',
 'Every basic operation of a hypergraph has the effect and result of the same operation of the backend chosen when it was created, and an unknown backend name is refused with an error. With the null backend nothing is ever stored: every query answers as for an empty hypergraph and adding returns what was given.',
 ['inputs','configurations'],'every operation, all arguments and results, every backend name',
 'Tests run the same operations on SQLite and null with fixed arguments; default arguments and results that are passed on are only partly looked at.',
 [HG,'gb/hypergraph/null.py'],[('delegation','HyperGraph'),('null object','Null')],['all operations of the hypergraph'])
p('E01','Edges survive the conversion to text and back',
 'Converting any well-formed edge to text and parsing the text gives the same edge again, with the types of all atoms, whether or not the outer parentheses are there and whatever edge comes first inside; different edges have different texts. Splitting the text of an edge gives the texts of its elements in order. '+WF,
 ['inputs'],'every well-formed edge of every length and depth, and every atom in it',
 'Tests convert seven fixed edges of depth at most two.',
 [ED],[('printing','edge2str, nodes2str, atom2str'),('parsing','str2edge, split_edge_str, split_inner_str, parsed_token, open_pars, close_pars')],['edge2str','str2edge','split_edge_str'])
p('E02','Tokens are read as numbers exactly if they are written as numbers',
 'A token is an integer exactly if it is an optional minus followed by one or more ASCII digits, a float exactly if it is an optional minus followed by one or more ASCII digits with a single point before, between or after them, and a symbol otherwise; parsing yields that integer or float, or the token itself, and never fails on a non-empty token without parentheses.',
 ['inputs'],'every non-empty text without white space and parentheses',
 'Tests read four numbers.',
 [ED],[('classification','token_type'),('conversion','parsed_token')],['token_type','parsed_token'])
p('E03','The number of an ordering identifies it, and reordering can be undone',
 'For every length n, the orderings numbered 0 to n!-1 of a sequence are all its n! orderings by position, each once, in lexicographic order of positions. Undoing an ordering, given its number, restores the original sequence, for elements of any kind, equal ones included.',
 ['inputs'],'every sequence and every number from 0 to n!-1',
 'Tests list the orderings of one sequence of three elements.',
 [SQL],[('ordering by number','nthperm'),('inverse','unpermutate'),('enumeration','do_with_edge_permutations')],['nthperm','unpermutate'])
p('S01','Negating twice gives the same symbol or edge back',
 'The negative of a symbol or edge that is not negative is negative, negating that gives the original again, and the other way round for negatives of those; negating an edge changes nothing but its first element. A symbol is negative exactly if its text starts with a tilde, and an edge exactly if its first element does.',
 ['inputs'],'every non-empty symbol, every edge whose first element is such a symbol',
 'Tests negate two symbols and two edges once.',
 [SY,ED],[('tilde prefix','symbol.is_negative, symbol.negative, edge.is_negative, edge.negative')],['negative','is_negative'])
p('S02','Symbols take apart into root and namespace and build up again',
 'A text symbol that is no URL splits at its slashes into parts that join up to the same symbol, its root is the first part and its namespace the second if there is one; building a symbol from texts without slashes and taking it apart gives these texts unless the result is a URL. URLs, numbers and anything else are whole: they are their own root and have no namespace, and a symbol is a root exactly if it equals its own root.',
 ['inputs'],'every symbol of every type: texts, URLs, integers, floats, edges',
 'Tests use one symbol of each type.',
 [SY],[('type and parts','sym_type, parts, root, nspace, is_root, build')],['sym_type','parts','root','nspace','is_root','build'])
p('S03','Converting any text to a symbol gives valid symbol text',
 'The symbol made from a text is its lower case form with every slash, parenthesis and white space character replaced by an underscore and nothing else changed; so it contains none of those, is a root, and converting it again changes nothing.',
 ['inputs'],'every text',
 'No test calls it.',
 [SY],[('replacements','str2symbol')],['str2symbol'])
p('S04','Symbol hashes are the same polynomial hash on every run',
 'The hash of a text is the lower case hexadecimal form, without prefix or padding, of the 64-bit value obtained from 1125899906842597 by adding each code point in turn and multiplying by 31, wrapping around; it depends on nothing else.',
 ['inputs'],'every text',
 'One hash value of one text is tested; identifiers stored in databases depend on all of them.',
 [SY],[('polynomial hash','hashed')],['hashed'])
p('S05','New meanings get a fresh namespace, existing meanings are left alone',
 'For a text symbol that is a root and no URL, making a new meaning gives a symbol with that root and a namespace made of the given prefix and a new hash; a symbol that already has a namespace is returned unchanged.',
 ['inputs'],'every text symbol and prefix without slashes',
 'No test calls it.',
 [SY],[('namespace generation','new_meaning, random_hash')],['new_meaning'])
p('S06','The readable form of a symbol is its root with spaces',
 'The readable form of a text symbol is its root with each underscore replaced by a space and nothing else changed, that of a URL is the URL itself, and that of anything else its usual text form.',
 ['inputs'],'every symbol of every type',
 'No test calls it.',
 [SY],[('rendering','symbol2str')],['symbol2str'])
p('N01','Linearising a parsed token visits every token of its subtree once, in order',
 'The token list of a parse tree holds every token of the tree exactly once: for each token first those of its left children in order, then itself, then those of its right children in order. The word list and phrase text are the same without separators, punctuation and spaces.',
 ['inputs'],'every parse tree of every shape and size',
 'No test covers tokens (the language model they need is not available).',
 ['gb/nlp/nlp_token.py'],[('in-order traversal','Token.to_list, Token.is_word, Token.to_word_token_list, Token.chunk_str')],['to_list','to_word_token_list','chunk_str'])
p('N02','Parsed sentences mirror the parser output, with correct links',
 'Every sentence found by the language parser becomes one list with one token per parsed token, in order, carrying its attributes (the word in lower case and stripped); children lists hold the tokens of the children in order, every child that is reached has its parent as parent, and the same parsed token always gives the same token. The root of a sentence is its first token with the root dependency, or none.',
 ['inputs'],'every parser output: any number of sentences, any dependency trees',
 'No test covers parsing (the language model is not available).',
 ['gb/nlp/parser.py','gb/nlp/sentence.py'],[('conversion with memo','Parser.__spacy2token, Parser.parse_text'),('root search','Sentence.root')],['parse_text','root'])
p('K01','Building the initial tree keeps every word of the sentence once',
 'The tree built from a parsed sentence has as leaves every token reached from the root token, exactly once, except the tokens without dependency or with the punctuation dependency and everything below them; this holds for every combination of dependency labels and parts of speech. Building it never fails.',
 ['inputs'],'every dependency tree with a root token, all labels',
 'The eight extractor tests need a language model that is not available; they would cover eight sentences.',
 ['gb/knowledge/stages/alpha.py','gb/knowledge/semantic_tree.py'],[('nesting in layers','AlphaStage.process_token, AlphaStage.process_child_token, Node.nest, Node.new_layer, Node.apply_layers'),('tree surgery','Tree.enclose, Tree.disenclose, add_to_first_child, remove_redundant_nesting')],['leaves of the tree'])
p('K02','Marking compounds changes no structure',
 'The stage that marks compounds changes neither the shape of the tree nor the order or identity of its leaves; it gives every element a namespace, and it marks a node as compound exactly if its children are all leaves with the same non-empty entity type, or every leaf below it has one of the dependencies of compounds.',
 ['inputs'],'every tree',
 'See K01.',
 ['gb/knowledge/stages/beta.py','gb/knowledge/semantic_tree.py'],[('marking','BetaStage.process_entity, is_compound_by_entity_type, is_compound_by_deps, Node.compound')],['tree before and after'])
p('K03','Combining relations drops articles and no other word',
 'The stage that combines relations keeps every leaf of the tree exactly as often as before, except that it may drop leaves that are the determiners "the", "a" or "an"; it never fails.',
 ['inputs'],'every tree produced by the earlier stages',
 'See K01.',
 ['gb/knowledge/stages/gamma.py','gb/knowledge/semantic_tree.py'],[('tree surgery','GammaStage.process_entity, process_entity1, combine_relationships')],['leaves of the tree'])
p('K04','Choosing the best relation structure keeps every word',
 'The stage that restructures relations returns a tree with the same leaves, each exactly as often as before, whatever alternative it chooses, and never fails.',
 ['inputs'],'every tree produced by the earlier stages',
 'See K01.',
 ['gb/knowledge/stages/delta.py','gb/knowledge/semantic_tree.py'],[('candidate generation and choice','DeltaStage.process_entity, find_candidates_r, build_candidate, node_fit')],['leaves of the tree'])
p('K05','The final edge mirrors the tree',
 'The edge made from a tree has the shape of the tree: a node becomes the tuple of what its children become, in order, a leaf becomes the symbol of its word and namespace, and a compound becomes one symbol of the words of all its leaves in order, joined by underscores.',
 ['inputs'],'every tree',
 'The tests do not look at the last stage at all.',
 ['gb/knowledge/stages/epsilon.py'],[('conversion','EpsilonStage.build_hyperedges')],['process'])
p('K06','The extractor runs its stages in order and records each output',
 'For every list of known stage names that starts with the stage that reads sentences (alpha) and has it nowhere else, reading a sentence runs these stages in order, each on the result of the one before, returns the result of the last, and records the text of every result in order; an unknown name is refused with an error. Reading a text gives one result per sentence, in order.',
 ['configurations','inputs'],'every list of stages, every text',
 'The tests use the default list only, and cannot run.',
 ['gb/knowledge/extractor.py'],[('pipeline','Extractor.read_text, Extractor.read_sentence, Extractor.create_stage')],['read_text','read_sentence','outputs'])
p('R01','Reading WordNet records every relation as a belief of WordNet, and no other',
 'Reading WordNet adds, for every synset, exactly the beliefs for its part of speech, its synonyms, its relations to other synsets and the relations of its lemmas, each with the symbols of the right lemmas in the right order, all with WordNet as the source, and leaves none of them waiting in a buffer.',
 ['inputs'],'every content of the WordNet database',
 'No test covers the reader and the corpus is not available.',
 ['gb/readers/wordnet.py'],[('traversal','read, process_synset, process_relationships, process_lemma_relationships, add_relationship, lemma2symbol, pos2symbol')],['the hypergraph after read'])
p('R02','The dump filter keeps main-namespace pages whole and drops the others whole',
 'Filtering a MediaWiki dump outputs, unchanged and in order, exactly the lines outside of pages and the lines of the pages whose title has no colon; of a page whose title has a colon no line is output. (Page start, title and page end are on separate lines, in that order.)',
 ['inputs'],'every well-formed dump, any number and order of pages',
 'No test covers the script.',
 ['python/filter_wikidump.py'],[('line state machine','main, check_title')],['standard output'])
p('C01','Command line options reach the hypergraph backend',
 'Every command that opens a hypergraph opens it with the backend and database named by the options, the documented defaults for those not given, and for MySQL with host, user and password under the names the backend reads.',
 ['configurations'],'every combination of options and commands',
 'No test runs the command line.',
 ['gb/gbrain.py','gb/hypergraph/mysql.py',HG],[('option passing','cli, create, wordnet, shell')],['parameters received by the backend'])
p('L01','The legacy Clojure store answers like the Python one',
 'The Clojure implementation of the hypergraph store and its belief operations gives the same answers to the same histories of operations as the Python implementation.',
 ['histories','programs'],'every history of operations on both implementations',
 'The Clojure tests cover single operations and cannot run here.',
 ['src/main/clojure/graphbrain/hg/sql.clj','src/main/clojure/graphbrain/hg/beliefs.clj'],[('Clojure backend','graphbrain.hg.sql')],['both stores'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
