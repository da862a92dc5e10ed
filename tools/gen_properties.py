#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long
texts stay reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe), 'hook_needed': hook}})


S = 'src/os_urlpattern/'
CL, MA, PM, MT, FM, CM, PU, PR, PV, PT, PN, UT, DF = [S + x + '.py' for x in (
    'pattern_cluster', 'pattern_maker', 'parser', 'pattern_matcher',
    'formatter', 'cmdline', 'parse_utils', 'parser', 'parsed_piece_view',
    'pattern', 'piece_pattern_node', 'utils', 'definition')]

prop('C01', 'A generated URL pattern matches every URL it was generated from',
     'For every set of accepted URLs and every min_cluster_num >= 2, each URL '
     'pattern emitted for a cluster can be loaded by the built-in matcher. '
     'When the patterns of all clusters are loaded together, matching any of '
     'the clustered URLs returns the pattern of the cluster that URL belongs '
     'to.',
     ['inputs', 'configurations'],
     'every set of accepted URLs, every min_cluster_num >= 2, every cluster '
     'and every member of it',
     'The tests match a handful of hand-written patterns against abcNN URLs '
     'and never feed generated patterns back; the guarantee is over all sets '
     'of URLs, whose shapes choose among six kinds of views on both sides.',
     [CL, PV, MT, PU, PT],
     [('the view deduced from a pattern is the view that produced it',
       PV + ':view_cls_from_pattern'),
      ('one matcher per view', MT + ':VIEW_MATCHERS'),
      ('pattern text assembled from clustered sub pieces',
       CL + ':ViewPieceBagBucket._transfer')],
     [('pattern of a tree node', 'text which stands for the piece',
       PN + ':PiecePatternNode')],
     ['PatternMaker.make() + pformat("pattern")',
      'PatternMatcher.load()/match()'])

prop('C02', 'A generated pattern is a regex that describes its members tightly',
     'Read as an ordinary regular expression, the pattern of a cluster '
     'accepts the whole path?query#fragment text of every member and has the '
     "members' number of path levels, query keys in order and fragment "
     'presence. At each component it names exactly the character spaces '
     'occurring in every member, it is literal exactly where all members '
     'agree, and no two clusters of one run share a pattern.',
     ['inputs', 'configurations'],
     'every set of accepted URLs, every min_cluster_num >= 2, every cluster, '
     'member and component',
     'Tests compare the pattern of about ten URL sets with an expected '
     'string and never run it as a regex over sets containing escaped signs, '
     'long runs, queries or fragments.',
     [CL, PU, PT, FM, DF],
     [('literal/fixed/wildcard rule text', PU + ':specify_rule'),
      ('literal length of a piece', PU + ':ParsedPiece.piece_length'),
      ('escaping of signs', DF + ':CHAR_RULE_DICT'),
      ('assembling', PU + ':pack')],
     [], ['pformat("pattern")'])

prop('C03', 'Clustering partitions the loaded URLs and conserves their metas',
     'For every set of accepted URLs clustering terminates without error, '
     'and every distinct URL text falls in exactly one cluster together with '
     'all meta data loaded for it and nothing else. The reported cluster '
     'counts are the numbers of distinct URL texts, duplicates never change '
     'them, and load tells truthfully whether the URL was new.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of loads (with duplicates, several metas, several '
     'structures), every min_cluster_num >= 2',
     'Tests check one 100-URL tree count and one meta per leaf; loss or '
     'duplication of members appears only for particular splits of the tree.',
     [CL, MA, PN, UT],
     [('splitting the piece tree by pattern path', CL + ':split_by_pattern'),
      ('unique counting', PN + ':build_from_parsed_pieces'),
      ('meta union', PN + ':build_from_piece_pattern_nodes'),
      ('termination: split only when more than one pattern',
       CL + ':_can_be_splited')],
     [('count', 'number of unique paths below a node', UT + ':TreeNode'),
      ('meta', 'set of metas of a leaf', PN + ':PiecePatternNode')],
     ['PatternMaker.load() result', 'PatternMaker.make()', 'dump_tree()'])

prop('C04', 'Clusters depend only on the set of URLs, not on order or host',
     'The clusters (pattern, members, count) are a function of the set of '
     'loaded URLs and the configuration. Load order, repeated loads, scheme, '
     'host, <params>, and the iteration order of unordered containers never '
     'change them.',
     ['histories', 'inputs', 'schedules'],
     'every permutation of every set of URLs, every duplication, every '
     'scheme/host/params decoration, every hash seed / set iteration order',
     'Tests load each set in one order under one PYTHONHASHSEED.',
     [CL, UT, PN, MA],
     [('buckets keyed by value, not by arrival', CL + ':PieceBagBucket'),
      ('forced fuzzy pattern once enough buckets arrived',
       CL + ':FuzzyPatternCluster.add'),
      ('any object of a bag is representative', UT + ':Bag.pick')],
     [('Bag._objs', 'hash-ordered containers', UT + ':Bag')],
     ['PatternMaker.load()/make()'])

prop('C05', 'min_cluster_num is the least size of a generalised cluster',
     'With min_cluster_num = m >= 2 every cluster is either one distinct URL '
     'with a fully literal pattern or at least m distinct URLs with a '
     'generalised pattern; fewer than m URLs of one structure and character '
     'space are never generalised. Clusters are stable: clustering only the '
     'members of one cluster again yields that same cluster.',
     ['inputs', 'configurations'],
     'every set of accepted URLs, every m >= 2',
     'Only the default value 3 is ever used by a test, on sets far above the '
     'threshold.',
     [CL, S + 'config/default_config.cfg'],
     [('thresholds', CL + ':confused'),
      ('re-clustering until stable', CL + ':cluster'),
      ('level decisions', CL + ':PiecePatternCluster.cluster, '
       'LengthPatternCluster.cluster, FuzzyPatternCluster.cluster')],
     [], ['PatternMaker.make() under config make.min_cluster_num'])

prop('C06', 'Enough similar URLs are generalised to the documented pattern',
     'At least min_cluster_num URLs which agree except for one run of equal '
     'length and character space become one cluster whose pattern has '
     '[space]{length} there and is literal elsewhere; if a one-run component '
     'takes at least min_cluster_num different lengths it becomes [space]+, '
     'and equally long values mixing the major character spaces (and %) in '
     'pairwise different orders become [spaces]{length}. With '
     'min_cluster_num >= 3 a single value of another length next to at least '
     'min_cluster_num equally long ones stays a literal pattern of its own.',
     ['inputs', 'configurations'],
     'every position (path level, query value, key-less query, fragment), '
     'character space, length, number of URLs and min_cluster_num >= 2',
     'Tests have about ten examples, all with min_cluster_num 3 and mostly '
     'in the last path level.',
     [CL, PV, PU],
     [('length and fuzzy clusters', CL + ':LengthPatternCluster, '
       'FuzzyPatternCluster'),
      ('multi/mixed views', CL + ':BasePatternCluster, MixedPatternCluster'),
      ('noise rule', CL + ':confused')],
     [], ['pformat("pattern")'])

prop('C07', 'Same fuzzy digest iff same structure and same character spaces',
     'Two URLs have the same fuzzy digest exactly when they have the same '
     'number of path levels, the same query keys in the same order, the same '
     'fragment presence and the same set of character spaces at every '
     'position. A URL pattern has the fuzzy digest of the URLs it describes, '
     'and the digest of a string equals the digest of its parsed form.',
     ['inputs'],
     'every pair of URLs and URL patterns, however their parts could be '
     'confused after concatenation',
     'One test compares digests of three pairs of URLs; collisions between '
     'adversarially similar structures are never looked for.',
     [PU, PR, PT, MT],
     [('digest of the packed character spaces', PU + ':digest, pack'),
      ('sorted sets of rules', PU + ':ParsedPiece.fuzzy_rule, '
       + PT + ':Pattern.fuzzy_rule')],
     [], ['os_urlpattern.parser.fuzzy_digest'])

prop('C08', 'Matching is strict: a reported pattern really fits the URL',
     'Whatever valid patterns are loaded, each pattern reported for a URL has '
     'the same number of path levels, query keys and fragment presence as '
     'the URL, exactly the same character spaces at every position, and '
     'every component of the URL is accepted by its pattern as a regex. In '
     'particular incomplete matches ([a-z0-9]+ against letters only) are '
     'never reported.',
     ['inputs', 'histories'],
     'every set of loadable patterns (generated or hand written) and every '
     'URL',
     'The only matching test has six patterns that all match; no test has a '
     'pattern that must not match.',
     [MT, PV, PU],
     [('digest routing', MT + ':PatternMatcher.match'),
      ('view matchers', MT + ':ViewMatcher and subclasses'),
      ('tree walk', MT + ':PatternMatchNode.match')],
     [('match tree', 'patterns by position', MT + ':PatternMatchNode')],
     ['PatternMatcher.load()/match()'])

prop('C09', 'Every loaded pattern that fits is reported, whatever else is loaded',
     'A pattern of any form the tool generates (each component literal, split '
     'into runs or mixed groups or at the last dot with literal, fixed or '
     'wildcard parts, or one fixed/wildcard rule) is reported exactly for the '
     'URLs whose parts have the texts or the lengths and exactly the '
     'character spaces it names. The set reported for a URL is the union of what each '
     'loaded pattern gives alone, in any load order and with repeated loads, '
     'each pattern once and with the meta last bound to it.',
     ['inputs', 'histories'],
     'every URL, every set and order of loaded patterns, every component '
     'position',
     'The test only asserts that more than three of six patterns match; a '
     'pattern lost because another one is loaded is invisible to it.',
     [MT, PV],
     [('registration per view', MT + ':add_match_node'),
      ('ordered list of view matchers', MT + ':PatternMatchNode._get_matcher'),
      ('tree sharing', UT + ':build_tree')],
     [('_view_matchers', 'matchers of a node, sorted by view order',
       MT + ':PatternMatchNode')],
     ['PatternMatcher.load()/match()', 'node.meta'])

prop('C10', 'The best match is the most specific one, in any load order',
     'Sorting the results of a match is a consistent total order: among '
     'generated-form patterns matching one URL, a pattern that accepts '
     'strictly fewer texts than another ranks above it. Hence the best '
     'result is unique and does not depend on the load order, and an exact '
     'literal pattern always wins.',
     ['inputs', 'histories'],
     'every URL, every pair/triple of matching patterns, every load order',
     'The existing test computes sorted() and compares without asserting.',
     [MT],
     [('view precedence', MT + ':VIEW_ORDER'),
      ('per unit key', MT + ':MatchPattern.cmp_key, __lt__'),
      ('leaf to root comparison', MT + ':PatternMatchNode.__lt__')],
     [], ['sorted(PatternMatcher.match(url), reverse=True)[0]'])

prop('C11', 'A URL is decomposed into the documented structure without loss',
     'Parsing a URL yields its non-empty path levels (plus a final empty '
     'level for a trailing slash), its query keys and values in order '
     '(distinguishing absent, empty, key-less and value-less queries) and its '
     'fragment (distinguishing absent and empty); scheme, host and params are '
     'ignored. URLs without a path, with a misplaced & or with an illegal '
     'character are refused, and all others are accepted.',
     ['inputs'],
     'every text over the legal characters and separators',
     'Tests list about thirty URLs; the position arithmetic on ?, # and & '
     'has far more corner cases.',
     [PU, PR, DF],
     [('absent versus empty', PU + ':parse_url'),
      ('path levels', PU + ':filter_useless, unpack'),
      ('query automaton', PU + ':parse_query_string'),
      ('key normalization', PU + ':normalize')],
     [], ['os_urlpattern.parser.parse', 'parse_utils.analyze_url'])

prop('C12', 'Components are split into maximal character-space runs',
     'A parsed component consists of the maximal runs of one character space '
     '(a-z, A-Z, 0-9, each sign alone), in order, with signs written as '
     '[sign] or [sign]{n}; read as a regex the joined runs accept exactly '
     'that component. Its literal length is its number of characters and its '
     'character space is the sorted set of the runs; every printable ASCII '
     'character but space and backquote is legal, everything else is refused.',
     ['inputs'],
     'every component text',
     'Tests parse five pieces; escaped signs, braces, brackets and '
     'multi-digit run lengths interact in the length computation.',
     [PU, DF, PV],
     [('run automaton', PU + ':PieceParser'),
      ('length without regex syntax', PU + ':ParsedPiece.piece_length'),
      ('mixed runs', PU + ':mix')],
     [], ['PieceParser.parse', 'ParsedPiece.piece_length/fuzzy_rule'])

prop('C13', 'Pattern strings round-trip, and malformed ones are refused',
     'Packing the literal form of any URL and analysing it as a URL pattern '
     'gives back the same structure and components, and the units of a '
     'pattern concatenate to the pattern. A pattern with a path '
     'level, query value or fragment that is not a sequence of letters/digits '
     'and bracketed rules with a sufficient positive count or + is refused '
     'when loaded instead of being given some other meaning.',
     ['inputs'],
     'every URL and every string over the pattern alphabet',
     'Tests have seven round trips and about a dozen malformed strings.',
     [PU, PT],
     [('separating path/query/fragment of a pattern',
       PU + ':parse_url_pattern_string'),
      ('unit scanner', PU + ':parse_pattern_string'),
      ('rule scanner', PU + ':parse_pattern_unit_string')],
     [], ['PatternMatcher.load', 'parse_utils.pack / '
          'analyze_url_pattern_string'])

prop('C14', 'Makers and matchers have no memory beyond what was loaded',
     'At any point of any history of loads, makes (complete or abandoned), '
     'combined makes and matches, a make returns what a fresh maker loaded '
     'with the same URLs returns, and a match returns what a fresh matcher '
     'loaded with the same patterns returns. Makers and matchers living at '
     'the same time, also with different configurations or with their '
     'iterations interleaved, never influence each other.',
     ['histories', 'schedules'],
     'every sequence of operations on one or two objects',
     'No test calls make twice, loads after make, or uses two makers or '
     'matchers side by side.',
     [MA, CL, MT, PN, UT],
     [('patterns are recomputed on every make',
       CL + ':PiecePatternCluster.cluster'),
      ('sub trees are rebuilt', CL + ':split_by_pattern'),
      ('per object trees', MA + ':Maker, ' + MT + ':Matcher')],
     [('Maker._root', 'piece tree', MA), ('Matcher._root', 'match tree', MT)],
     ['PatternMaker.make()', 'PatternMatcher.match()'])

prop('C15', 'Refused input leaves no trace',
     'When loading a URL or a URL pattern is refused, the maker or matcher '
     'behaves afterwards exactly as if that load had never been attempted: '
     'same clusters, same sub makers, same matches, same results of later '
     'loads. Handing a pattern to a maker or a URL to a matcher as pattern '
     'is refused.',
     ['histories', 'inputs'],
     'every history of accepted and refused loads, every kind of refusal',
     'Tests only call the parsers directly with invalid data; no test loads '
     'invalid data into a maker or matcher.',
     [MA, MT, PR, PU],
     [('parse everything before touching the tree',
       MA + ':PatternMaker.load, ' + MT + ':PatternMatcher.load')],
     [('_makers / _matchers', 'sub objects by digest', MA + ', ' + MT)],
     ['PatternMaker.load()', 'PatternMatcher.load()'])

prop('C16', 'Working per fuzzy digest equals working all-in-one',
     'Distributing URLs over low-level makers, and patterns over low-level '
     'matchers, by fuzzy digest gives exactly the clusters and matches of '
     'the all-in-one maker and matcher. URLs with other digests never '
     'influence the clusters of a digest, and each digest has one sub maker.',
     ['inputs', 'histories', 'configurations'],
     'every mixed set of URLs with several structures, every distribution of '
     'the work by digest',
     'The README example is not even run by a test; tests use one structure '
     'per set.',
     [MA, MT, PR, PU],
     [('one sub maker per digest', MA + ':PatternMaker.load'),
      ('one sub matcher per digest', MT + ':PatternMatcher.load')],
     [], ['Maker/Matcher', 'fuzzy_digest', 'PatternMaker.makers'])

prop('C17', 'All output formats describe the same clusters',
     'For every clustering, the pattern, cluster, inline and json formats '
     'show the same pattern for a cluster; cluster and inline show every '
     'meta of every URL of the cluster exactly once, json shows its count of '
     'distinct URLs. The combined tree contains exactly the patterns of the clusters '
     'as root-to-leaf paths, every node counting the URLs below it, and the '
     'ete format draws exactly that tree.',
     ['inputs', 'configurations'],
     'every set of accepted URLs and metas, every format',
     'Tests format one ten-URL cluster in two formats; the ete test asserts '
     'literals.',
     [FM, MA, UT, PU],
     [('formatters', FM), ('combining clusters',
                           MA + ':Maker._combine_clusters'),
      ('paths of a tree', UT + ':dump_tree')],
     [], ['pformat(...)', 'make(combine=True)'])

prop('C18', 'pattern-make accounts for every input line and never aborts',
     'For every input (valid URLs, duplicates, blank, padded, undecodable, '
     'malformed or pattern-looking lines, from several files or stdin, any '
     'final newline) the command exits normally and prints exactly what the '
     'API yields for the valid lines, in the chosen format; invalid lines '
     'are ignored. The min_cluster_num of a given config file is honoured. '
     'What it logs at the chosen level is true: one warning naming each '
     'refused line, and totals that are the numbers of all, empty, valid, '
     'invalid and distinct lines.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every sequence of line kinds, every format, every log level, input '
     'source and config file',
     'Tests run five clean inputs, never an invalid line, stdin or a config '
     'file (the config option crashed on the installed Python).',
     [CM, FM, S + 'config/__init__.py', S + 'compat.py'],
     [('error handling per line', CM + ':MakePatternCommand._load'),
      ('config file', CM + ':MakePatternCommand.process_args')],
     [], ['stdout, log and exit status of pattern-make'])

prop('C19', 'pattern-match answers every input line in order',
     'For every input the command prints exactly one line per input line, in '
     'order: the best matching pattern (or with -a all of them, tab '
     'separated), or N when nothing matches, or E when the line is no valid '
     'URL, then a tab and the line stripped of surrounding blanks. Lines of '
     'pattern files that are not loadable patterns are ignored, so cluster '
     'format output of pattern-make can be used as a pattern file. What it '
     'logs at the chosen level is true: one warning naming each refused URL '
     'or pattern line, and the numbers of pattern lines of each kind.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every sequence of line kinds in URL and pattern files, every option',
     'One test with nine matching URLs and one pattern; N, E, -a, several '
     'files and malformed pattern lines are not exercised.',
     [CM, MT],
     [('one write per line', CM + ':MatchPatternCommand._match'),
      ('best of sorted results', CM + ':MatchPatternCommand._match_result'),
      ('tolerant pattern loading', CM + ':MatchPatternCommand._load')],
     [], ['stdout, log and exit status of pattern-match'])

prop('C20', 'Parsing, digesting, making and matching are re-entrant',
     'Threads that parse, digest, format, cluster with their own makers, '
     'match with their own matchers or match with one shared fully loaded '
     'matcher obtain under every interleaving the results they obtain alone.',
     ['schedules'],
     'every interleaving of two threads with at most one preemption (two in '
     'the thorough tier) at every executed source line',
     'No test uses threads; a shared scratch buffer would pass every '
     'sequential test.',
     [PR, PU, MT, PT, MA],
     [('a fresh piece parser per parse', PR + ':parse'),
      ('idempotent lazy caches', PT + ':Pattern, ' + PU + ':ParsedPiece'),
      ('read-only match', MT + ':PatternMatchNode.match')],
     [('lazy caches', 'regex, units, view, length', PT + ', ' + PV)],
     ['parse', 'fuzzy_digest', 'PatternMaker', 'PatternMatcher', 'pformat'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
assert all(len(p['title']) <= 80 for p in P)
print(len(P), 'properties')
