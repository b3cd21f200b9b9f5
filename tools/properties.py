"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/properties.py` after a change."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'Python/research/scripts/relnet/'
D = 'Python/research/scripts/demo/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=note))


P('C01', 'Identity of value nodes, relation edges and directed relations',
  'Two value nodes are equal, hash alike and collapse in sets and dicts exactly when variable and value are both '
  'equal; two relation edges exactly when they have the same unordered pair of end nodes and the same relation; two '
  'directed relations exactly when source, target and relation are equal, so an arrow never equals its reverse nor the '
  'plain relation. Nothing of one kind equals anything of another kind, and none of them can be copied. An edge knows '
  'its two end nodes: it recognises exactly them, the opposite of either is the other, and asking for the opposite of '
  'any other node is refused.',
  ['inputs'], 'all names of variables, values and relations (including names with equal text forms and empty names), '
              'all hash layouts of the end node pair',
  'Tests compare a few fixed short names; equality must hold for every combination of names, also for names whose '
  'joined text is the same.',
  [R + 'graph_components.py'],
  [('node identity', 'graph_components.py: class ValueNode'), ('edge identity', 'graph_components.py: class RelationEdge'),
   ('directed identity', 'graph_components.py: class DirectedRelation')])

P('C02', 'A vocabulary admits exactly what was declared, one instance each',
  'A vocabulary (variables with their values, and relations) is accepted only if there is at least one variable, at '
  'least one value for every variable and at least one relation, and it reports exactly what was declared. A node is '
  'handed out exactly for a declared variable with one of its own values, and an edge exactly when both end nodes were '
  'handed out before, its relation was declared and, if directed, source and target are variables of its end nodes; '
  'anything else is refused. Asking again for the same node or edge always gives the same instance, and different '
  'nodes or edges are never the same instance.',
  ['inputs', 'histories'], 'all vocabularies, all request histories over known and unknown names',
  'Tests ask for one or two known nodes and a single unknown one; which values belong to which variable and the '
  'request history are arbitrary.',
  [R + 'graph_components.py', R + 'relation_graph.py'],
  [('admission and caching', 'graph_components.py: BuilderComponentsProvider'),
   ('vocabulary of a graph builder', 'relation_graph.py: RelationGraphBuilder.__init__')])

P('C03', 'A sample under construction admits exactly the well-formed steps',
  'A relation (plain or directed) is added to a sample being built exactly when it joins two nodes of two different '
  'variables of the vocabulary with a known relation, at least one of the two nodes is already there (or the sample is '
  'still empty), and those two nodes are not linked yet; an accepted step adds exactly that link and its end nodes, a '
  'refused step changes nothing. A fresh builder accepts a whole set of links exactly when every one is well formed, no two join the '
  'same pair of nodes with different relations and together they are connected, and the sample then has exactly those '
  'links and their end nodes. A built sample is therefore always connected; building without any node is refused, while '
  'the explicitly empty sample and a single declared node can be built.',
  ['inputs', 'histories'], 'all histories of build steps over known and unknown names, all sets of links, in every '
                           'iteration order',
  'Tests build a handful of fixed samples; connectivity and refusal depend on the whole step history and on the order '
  'in which sets are walked.',
  [R + 'sample_graph.py', R + 'graph_components.py'],
  [('step by step building', 'sample_graph.py: SampleGraphBuilder.add_relation, add_directed_relation, build'),
   ('building from edges', 'sample_graph.py: SampleGraphBuilder.build_from_edges, is_edges_connected, validate_endpoints')])

P('C04', 'Joining samples gives exactly their union, conflicts are refused',
  'Joining a sample into one being built succeeds exactly when both belong to the same vocabulary object, they share a '
  'node (or the target is empty), no variable would get two values and no pair of nodes two different relations (arrows '
  'with another direction included); the result has exactly the nodes and links of both, in whichever order they are '
  'joined, and neither sample is changed; the question whether a sample can be joined answers no exactly when some pair '
  'of nodes would get two relations. A set of samples matches, and can be joined, exactly when no variable has two '
  'different values in it. The joined sample of such a set of mutually touching samples without conflicts is the union '
  'of all of them together with all their counts.',
  ['inputs', 'histories'], 'all pairs and triples of samples, all counts, every order in which samples and links are met',
  'Tests join a few fixed pairs; the outcome must not depend on set iteration order nor on which samples share a variable.',
  [R + 'sample_graph.py', R + 'sample_set.py'],
  [('join', 'sample_graph.py: SampleGraphBuilder.join_sample, can_sample_be_joined'),
   ('join of a set', 'sample_set.py: SampleSet.can_join_samples, is_all_values_match, make_joined_sample')])

P('C05', 'A sample is exactly its nodes and links',
  'Two samples are equal and hash alike exactly when they have the same nodes and the same links, whatever their names '
  'and however they were built. Every view of a sample - its variables, values, value of a variable, presence tests, '
  'pairs of linked variables, part on some variables, link set, single-node and empty flags - tells exactly its nodes '
  'and links, and the link set or a builder made from a sample builds an equal sample again. Its text lists every link '
  '(or the single node) in sorted order and is its default name, while a given name is kept.',
  ['inputs', 'histories'], 'all connected samples over a vocabulary, all build orders, all names',
  'Tests look at a few fixed samples; equality must hold for all pairs of samples and build histories.',
  [R + 'sample_graph.py'],
  [('equality', 'sample_graph.py: SampleGraph.__eq__, __hash__'),
   ('views', 'sample_graph.py: SampleGraph.edges_set_view, text_view, values, value_for_variable, have_value, '
             'have_variable, edges_endpoint_variables, variables_subgraph_hash, single_node_variable')])

P('C06', 'Subgraph test and similarity follow the shared nodes and links',
  'A sample is a subgraph of another exactly when all its nodes and links are in the other, so every sample is a '
  'subgraph of itself, the empty sample of every sample, and mutual subgraphs are equal. The similarity of two samples '
  'is the number of shared nodes and links divided by the number of distinct nodes and links of both: it is symmetric, '
  'within 0 and 1, 1 exactly for equal samples and 0 exactly when they share nothing. Directed links count as shared '
  'only with the same direction.',
  ['inputs'], 'all pairs of samples, at least one of them not empty',
  'Tests compare three or four fixed pairs.',
  [R + 'sample_graph.py'],
  [('subgraph', 'sample_graph.py: SampleGraph.is_subgraph'), ('similarity', 'sample_graph.py: SampleGraph.similarity')])

P('C07', 'Neighbours, belt and outer layers of a sample follow its links',
  'With a relation filter (none or an empty filter lets every relation through), the neighbours of a node are exactly the '
  'nodes linked to it by a passing link, each with that link; the belt of a set of centre nodes is exactly the nodes '
  'outside the set linked by passing links to it, each with all those links, and is refused for an empty set. The external '
  'nodes of a set are exactly the nodes outside it which can be reached from it over passing links, each with all its '
  'passing links from the layers closer to the set, so without a filter every other node of the sample is external. The '
  'arguments are not changed and centre nodes which are not in the sample simply have no links.',
  ['inputs'], 'all connected samples, all sets of centre nodes, all relation filters',
  'Tests look at one fixed sample with two filters.',
  [R + 'sample_graph.py'],
  [('neighbours', 'sample_graph.py: SampleGraph.neighboring_values'), ('belt', 'sample_graph.py: SampleGraph.belt_nodes'),
   ('outer layers', 'sample_graph.py: SampleGraph.external_nodes')])

P('C08', 'Replacing values of a sample changes exactly those values',
  'Replacing values of variables in a sample gives a sample on the same variables, with the same links, relations and '
  'arrow directions, in which exactly the given variables have the given values; variables which are not in the sample are '
  'ignored, and a value not declared for an included variable is refused. The original sample and the replacement map '
  'never change, replacing the old values back restores an equal sample, and if nothing is to be changed the sample itself '
  'is given. The result belongs to the same vocabulary, is named as asked or by its text, and equals the sample built '
  'directly.',
  ['inputs'], 'all connected samples, all replacement maps',
  'Tests replace one value in one fixed sample.',
  [R + 'sample_graph.py'],
  [('replacement', 'sample_graph.py: SampleGraph.transform_with_replaced_values')])

P('C09', 'A sample set is a multiset of samples',
  'Adding a sample sums counts of equal samples, removing takes it out with its whole count and is refused if it is absent, '
  'adding or removing a whole set does so for every member, union and joining of sets add counts (joining no sets is '
  'refused), and filtering keeps exactly the samples that pass, with their counts. Length is always the sum of the counts, '
  'the count of a sample is refused if it is absent, and which samples, variables and values are there is told exactly. '
  'Two sets are equal and hash alike exactly when they have the same samples with the same counts, whatever the order they '
  'came in, and samples or sets of another vocabulary are refused without a change. Steps of a builder can be chained.',
  ['inputs', 'histories'], 'all histories of set builder operations, all sets, all positive counts',
  'Tests use one or two fixed sets with small counts.',
  [R + 'sample_set.py'],
  [('building', 'sample_set.py: SampleSetBuilder.add, add_all, remove, remove_all, join_sample_set, copy'),
   ('algebra', 'sample_set.py: SampleSet.union, filter_samples, count_of, __eq__, __hash__')])

P('C10', 'What was built never changes',
  'A built sample, sample set or relation graph stays exactly what it was whatever is done afterwards with the builder it '
  'came from, builders made from it, copies of builders, anything derived from it, its queries and the collections these '
  'returned, or the dict it was made from. A copied builder and its original are independent of each other both ways. '
  'Copying a sample, relation graph or folded graph is refused.',
  ['inputs', 'histories'], 'all histories of later operations after something was built',
  'Tests check results immediately after building; aliasing shows only in what happens later.',
  [R + 'sample_graph.py', R + 'sample_set.py', R + 'relation_graph.py', R + 'sample_space.py'],
  [('sample builders', 'sample_graph.py: SampleGraphBuilder.build, __copy__; SampleGraph.builder'),
   ('set builders', 'sample_set.py: SampleSetBuilder.build, copy; SampleSet.builder, items'),
   ('graphs', 'relation_graph.py: RelationGraphBuilder.build; sample_space.py: SampleSpace.builder, relation_graph')])

P('C11', 'Outcome probability is its count over the total',
  'The probability of an outcome is its count divided by the sum of all counts, it is above 0 and at most 1, and over all '
  'outcomes the probabilities sum to 1, one for each. Asking for the probability of a sample which is not an outcome is '
  'refused, as is asking for probabilities of an empty set.',
  ['inputs'], 'all sets of outcomes, all positive counts',
  'Tests use one set with fixed counts.',
  [R + 'sample_set.py'],
  [('probabilities', 'sample_set.py: SampleSet.probabilities, probability_of')])

P('C12', 'Marginal probabilities of variables are normalised counts',
  'For every asked variable (none asked or an empty set: all) that occurs in an outcome, and for no other, the marginal '
  'gives exactly its observed values, each with the count of outcomes having it divided by the count of outcomes containing '
  'the variable, so it sums to 1. With the unobserved share asked for, the counts are divided by the total of all outcomes '
  'instead and the label u gets the share of outcomes without the variable, again summing to 1. The marginals of a '
  'conditioned graph are those of its selected outcomes.',
  ['inputs'], 'all sets of outcomes, all positive counts, all asked sets of variables',
  'Tests use one or two fixed graphs.',
  [R + 'sample_space.py'],
  [('marginals', 'sample_space.py: SampleSpace.marginal_variables_probability')])

P('C13', 'The folded graph counts every value and every relation exactly',
  'The folded graph has one node for each variable that occurs in an outcome and one edge for each pair of variables linked '
  'in an outcome; a node counts for each observed value the outcomes having it and the rest as unobserved, an edge counts '
  'for each linked pair of values with its relation (and direction) the outcomes having it. The marginal distribution of a '
  'node covers every declared value and the unobserved share, each as its count over the total, summing to 1. A node is '
  'found by its variable, and none for a variable which does not occur.',
  ['inputs'], 'all sets of outcomes, all positive counts, also after conditioning',
  'Tests fold one or two fixed graphs.',
  [R + 'folded_graph.py', R + 'sample_space.py'],
  [('folding', 'sample_space.py: SampleSpace.folded_graph'),
   ('distribution', 'folded_graph.py: FoldedNode.marginal_distribution, unobserved_count; FoldedGraph.folded_node')])

P('C14', 'Conditioning keeps exactly the compatible outcomes',
  'Conditioning a relation graph on an evidence sample keeps exactly those outcomes that contain all nodes and links of the '
  'evidence or share no variable with it, each with its count, and remembers the evidence; the conditioned graph\'s '
  'total, its conversion to a plain graph and a builder made from it have these same outcomes. The original graph does '
  'not change, conditioning repeatedly selects repeatedly, and evidence of another vocabulary is refused.',
  ['inputs', 'histories'], 'all outcome sets, all evidence samples, all positive counts',
  'Tests condition one or two fixed graphs.',
  [R + 'relation_graph.py', R + 'conditional_graph.py'],
  [('selection', 'relation_graph.py: RelationGraph.conditional_graph'), ('conditioned graph', 'conditional_graph.py: ConditionalGraph')])

P('C15', 'The activation graph weighs values by evidence and similarity',
  'For non-empty evidence selecting at least one outcome, the activation graph has a node for each declared variable, marked '
  'if it is a variable of the evidence, with a weight within 0 and 1 for each declared value: the counts of the selected '
  'outcomes, full where the value is an evidence node of the outcome, times the similarity of outcome and evidence where '
  'it is an external node of the outcome seen from the evidence nodes, summed and divided by the selected total. It has an '
  'edge, marked as evidence, for each pair linked by an evidence link that a selected outcome has, and an unmarked edge for '
  'each pair whose link leads to an external node, counting for each relation the outcomes having it. The relation filter '
  'applies to external nodes only (none or empty: all), and the number of outcomes is the selected total.',
  ['inputs'], 'all outcome sets, all evidence samples, all relation filters, all positive counts',
  'Tests compute one fixed example.',
  [R + 'conditional_graph.py', R + 'activation_graph.py', R + 'sample_graph.py'],
  [('activation', 'conditional_graph.py: ConditionalGraph.activation_graph')])

P('C16', 'Grouping intersecting samples is a partition by shared linked pairs',
  'Grouping a set of samples puts two samples in the same group exactly when they have a linked pair of variables in common '
  'or are connected through other samples that way, and single-node samples exactly when they are on the same variable; '
  'a group is found under the set of all its variables. Every sample is in exactly one group with its count, in whatever '
  'order the samples come and whatever the names look like. Two different groups over the same set of variables are refused.',
  ['inputs'], 'all sets of samples, every order, all positive counts',
  'Tests group one fixed set; merging of groups depends on the order in which samples are met.',
  [R + 'sample_set.py'],
  [('grouping', 'sample_set.py: SampleSet.group_intersecting')])

P('C17', 'Factors are recognised and split exactly by linked pairs',
  'A relation graph is factorized exactly when it has no empty outcome and the sets of linked variable pairs of any two '
  'outcomes (the variable itself for a single node) are equal or disjoint; its factors are then the outcomes with equal '
  'sets, each outcome in exactly one factor with its count, and splitting any other graph is refused. A graph is joined '
  'exactly when all its outcomes are on the same variables. Relations, directions, values and the order of outcomes do not matter.',
  ['inputs'], 'all outcome sets, all positive counts',
  'Tests look at two or three fixed graphs.',
  [R + 'relation_graph.py', R + 'sample_space.py'],
  [('factors', 'relation_graph.py: RelationGraph.is_factorized, is_joined; sample_space.py: SampleSpace.factorized')])

P('C18', 'Joining the factors gives the product distribution',
  'For a factorized and connected relation graph in which every value of a variable occurs in each factor of that variable, '
  'joining gives exactly one outcome for each combination of one outcome per factor with matching values, the union of '
  'their nodes and links, with the product of their counts, whatever the iteration order. The result is joined and keeps the name of the graph '
  'unless given one. A graph '
  'which is not factorized or not connected is refused.',
  ['inputs', 'schedules'], 'all factor tables of the listed factor structures, all positive counts, iteration orders',
  'Tests join one or two fixed graphs under one iteration order.',
  [R + 'relation_graph.py', R + 'sample_set.py'],
  [('joining', 'relation_graph.py: RelationGraph.make_joined'), ('products', 'sample_set.py: SampleSet.make_joined_sample, can_join_samples')])

P('C19', 'Joining on variables multiplies the groups around them',
  'Joining a relation graph on a variable keeps the outcomes without the variable as they are and replaces those with it by '
  'one outcome for each combination of one outcome per group of intersecting outcomes with matching values, the union of '
  'their nodes and links with the product of the counts. Joining on several variables does so one variable after another, '
  'joining on none given does so for all variables, and joining on an empty set changes nothing. The original graph does '
  'not change and equal joined outcomes add up.',
  ['inputs'], 'all outcome sets, all sets of join variables, all positive counts',
  'Tests join one fixed graph on one variable.',
  [R + 'relation_graph.py', R + 'sample_set.py'],
  [('joining on variables', 'relation_graph.py: RelationGraph.joined_on_variables')])

P('C20', 'Generating all outcomes is complete and without duplicates',
  'Generating all possible outcomes gives, each exactly once with count 1, every sample over the vocabulary: every choice of '
  'variables, a value for each and relations between them such that the sample is connected, and nothing else, named apart. A builder '
  'which has outcomes already refuses and keeps them.',
  ['inputs', 'configurations'], 'all vocabularies within the bound, all names, hash layouts',
  'Tests count the outcomes of one vocabulary.',
  [R + 'relation_graph.py'],
  [('generation', 'relation_graph.py: RelationGraphBuilder.generate_all_possible_outcomes')])

P('C22', 'A relation graph holds exactly the outcomes its builder was given',
  'A relation graph has exactly the samples added to its builder, one by one, several at once or built in place, with counts '
  'summed over equal samples, and its vocabulary; a count below 1 and a sample of another vocabulary object, even if it '
  'looks the same, are refused without a change. Building without outcomes and a builder without a vocabulary are refused, '
  'a builder made from a graph goes on from its outcomes, steps can be chained, and a converted graph holds the same. Names given at any time are '
  'kept, default names tell the number of outcomes, a conditioned graph\'s default name the graph it comes from, and '
  'generated ids are unique.',
  ['inputs', 'histories'], 'all histories of builder operations, all integers as counts',
  'Tests add a few outcomes with counts 1 or 2.',
  [R + 'relation_graph.py', R + 'conditional_graph.py'],
  [('builder', 'relation_graph.py: RelationGraphBuilder.add_outcome, add_outcomes, build_sample, build')])

P('C23', 'Visualizations show exactly what is there',
  'The page of a sample shows one node per node and one labelled line per link; the page of a relation graph shows each outcome as a '
  'component of its own with its nodes and labelled links and one node telling its name and count, plus the evidence of a conditioned graph in red; '
  'the page of a folded graph shows every declared variable once with its value counts and unobserved count, gray if no '
  'outcome has it, that of an activation graph every declared variable with its weights, evidence green and others by '
  'weight, both with one line per edge telling its relations with their counts. One page of the asked size is written, under the given or the own name from which every '
  'character that is not a letter, digit or underscore (for samples also minus and parentheses) is dropped, so it never '
  'leaves the working directory.',
  ['inputs'], 'all graphs within the bound, all names',
  'Tests never render, and no test looks at what is drawn.',
  [R + 'sample_graph.py', R + 'sample_space.py', R + 'folded_graph.py', R + 'activation_graph.py'],
  [('drawing', 'sample_graph.py, folded_graph.py, activation_graph.py: visualize; sample_space.py: SampleSpace.visualize_outcomes')])

P('C24', 'Queries of a relation graph tell exactly its outcomes',
  'The included variables of a relation graph are exactly the variables with the values which occur in its outcomes, the '
  'included relations exactly the relations of their links; the link sets are exactly those of the outcomes with their '
  'counts, and finding outcomes for values gives exactly those outcomes which have all the given values, with their counts. '
  'The description gives name, outcome count, variables and relations, and printing samples lists every outcome once with '
  'its count.',
  ['inputs'], 'all outcome sets, all positive counts, all sets of asked values',
  'Tests query one or two fixed graphs.',
  [R + 'sample_space.py', R + 'relation_graph.py', R + 'conditional_graph.py'],
  [('queries', 'sample_space.py: SampleSpace.included_variables, included_relations, outcomes_as_edges_sets, '
    'find_for_values, print_samples; relation_graph.py: RelationGraph.describe; conditional_graph.py: ConditionalGraph.describe')])

P('C25', 'Variable-level graphs compare by content',
  'Variable nodes and edges (plain, folded and activation) are equal and hash alike exactly when '
  'their content is equal: variable, or pair of variables, with counts, weights, relations and evidence marks where they '
  'have them, whatever the order of the content; graphs are equal exactly when their nodes and edges are, and nothing equals '
  'anything of another kind. An edge has exactly two '
  'different end variables, anything else is refused. Graphs tell their variables and the number of outcomes, keep their '
  'name and what they were made of, and refuse to be copied.',
  ['inputs'], 'all names, all counts and weights',
  'Tests compare a few fixed nodes and edges.',
  [R + 'variables_graph.py', R + 'folded_graph.py', R + 'activation_graph.py'],
  [('variable graphs', 'variables_graph.py: VariableNode, VariableEdge, VariablesGraph'),
   ('folded', 'folded_graph.py: FoldedNode, FoldedEdge, FoldedGraph'),
   ('activation', 'activation_graph.py: ActiveNode, ActiveEdge, ActivationGraph')])
P('C26', 'Texts tell the whole content, sorted, whatever the order it came in',
  'The text of a value node, relation edge, directed relation, of a variable-level node or edge (plain, folded, activation), '
  'of a sample set and of a builder names exactly its content: variable and value, both end nodes and the relation (with '
  'source and target if directed), every value or relation once with its own count or weight, the evidence mark, every '
  'sample once with its count, or name and sizes for a builder. Parts are listed in sorted order, so the text is the same '
  'whatever the order in which the content was given or is iterated.',
  ['inputs'], 'all names, counts and weights, orders of insertion and iteration',
  'Tests print a few fixed objects; that order never matters cannot be sampled.',
  [R + 'graph_components.py', R + 'variables_graph.py', R + 'folded_graph.py', R + 'activation_graph.py', R + 'sample_set.py'],
  [('texts', 'the __repr__ methods of graph_components.py, variables_graph.py, folded_graph.py, activation_graph.py, '
             'sample_set.py, sample_graph.py, relation_graph.py')])

P('C27', 'Inference in a factorized graph is exact, as in a Bayes or Markov network',
  'Take a graph whose outcomes are the rows of factors over linked variables: for each factor one outcome for every '
  'combination of values, with any positive counts, linked by plain or directed relations, single-variable factors (priors) '
  'included, the factors connected. Joining it gives every combination of values with the product of the counts of the rows '
  'it is made of. Observing a value of one variable (conditioning on the single node, converting back, joining) gives '
  'exactly the combinations with that value, with the same counts, and the marginal probabilities of all variables are the '
  'exact posterior probabilities of the product of the factors; the same for further observations one after the other, '
  'before or after joining, so early and late observation agree. In particular, when the rows of an effect add up to the '
  'same count for every combination of its causes and the effect is not observed, each cause keeps its prior '
  'probabilities, whatever is observed of the other causes.',
  ['inputs', 'histories'], 'all network shapes listed, all positive counts, all observations in any order',
  'The experiments compare one network with fixed numbers against another library; that the inference is exact for all '
  'numbers and observations cannot be sampled.',
  [R + 'relation_graph.py', R + 'conditional_graph.py', R + 'sample_space.py', R + 'sample_set.py'],
  [('joining', 'relation_graph.py: RelationGraph.make_joined, conditional_graph'),
   ('marginals', 'sample_space.py: SampleSpace.marginal_variables_probability, relation_graph'),
   ('factors', 'sample_set.py: SampleSet.factorized, SampleSetBuilder.join_sample_set, make_joined_sample')])

P('C28', 'The experiments and examples build and compare exactly what they say',
  'The coin example counts one outcome per text of its format, with the relation telling whether the smaller coin came '
  'first, and describes every outcome with its count and share. The Bayes experiment makes from any network configuration a '
  'relation graph with exactly one outcome per table entry, counted by the entry times the factor, links from causes to '
  'effects, and refuses entries the factor does not make whole; its comparisons of joint and of inferred probabilities '
  'succeed for the same network and fail for a different one, with probabilities after any observations equal to the exact '
  'ones; the separation experiment fails when the dependent variable does not depend. The Markov experiment has one outcome per '
  'factor entry, normalised products as probabilities, and notices any difference which matters. The sub-graph '
  'picture shows each node alone and every choice of directed edges exactly once.',
  ['inputs'], 'all texts, configurations, tables and observations within the bounds, with an exact stand-in for pgmpy',
  'The scripts run once with fixed numbers and have no tests; that they would notice a difference is never tried.',
  ['Python/research/scripts/experiments/comparing_with_bayes_network.py', 'Python/research/scripts/experiments/comparing_with_markov_network.py',
   'Python/research/scripts/examples/building_net_from_coin_toss.py', 'Python/research/scripts/playaround/number_of_subgraphs.py'],
  [('example', 'building_net_from_coin_toss.py: build_relation_net, describe_relation_net'),
   ('experiments', 'comparing_with_bayes_network.py, comparing_with_markov_network.py: make_*, comparing_*'),
   ('pictures', 'number_of_subgraphs.py: make_all_sub_graphs')])

# --- the demo game ---

P('D30', 'Grids: cells, counts, copies, equality and the packed form agree',
  'A grid of booleans lists and counts exactly the cells which hold the asked value, prints its top row first, and '
  'refuses initial values which are not boolean. Two grids are equal (and then hash alike) exactly when they have the '
  'same cells, and a copy is equal but independent. Packing a grid of any size into integers and reconstituting it '
  'gives an equal grid of the same size, and different grids of one size never have the same packed form.',
  ['inputs'], 'all contents of small grids; packed forms across the ends of the 30-cell words',
  'There are no tests of the game; packing errors only show for certain sizes and cells.',
  [D + 'game.py'], [('grids', 'game.py: class Grid, reconstituteGrid')])

P('D31', 'Agents move along free cells only',
  'North, South, East, West and Stop are the unit steps up, down, right, left and none, with matching vectors, reverses, '
  'left and right turns; moving a configuration adds the vector and keeps the direction on a stop. On a grid point '
  'Pacman may stop or go to any neighbouring cell which is no wall, a ghost may go there too but can neither stop nor '
  'turn back while another way is open, between grid points an agent can only go straight on, and any other move is '
  'refused. The legal neighbours of a position are the cells of the board at most one step away from the cell nearest to '
  'it, that one included, which are no walls, never one outside the board.',
  ['inputs'], 'all cells, walls around them, directions and real positions within the bounds',
  'No test of the game exists; legality depends on the walls around and on the direction of the agent.',
  [D + 'game.py', D + 'pacman.py', D + 'util.py'],
  [('moves', 'game.py: Directions, Configuration, Actions'), ('legal moves', 'pacman.py: PacmanRules, GhostRules.getLegalActions')])

P('D32', 'What a move of Pacman does to the game',
  'A legal move of Pacman takes one point and moves him one cell; food there is eaten for 10 points, and eating the last '
  'food wins the game for 500 more; a capsule there is removed and scares every ghost for 40 moves. Then every ghost '
  'within distance 0.7 is either eaten if scared (200 points, it restarts at its start cell, not scared and marked as '
  'eaten), or catches Pacman, which loses the game and 500 points unless it was just won. Nothing else changes, and a '
  'won or lost game has no legal moves and no successors.',
  ['inputs'], 'all moves, food and capsules around, ghosts at any real position with any scared timer, any score',
  'No test of the game exists; the order of eating, winning and being caught matters only when they coincide.',
  [D + 'pacman.py', D + 'game.py'],
  [('move of Pacman', 'pacman.py: GameState.generateSuccessor, PacmanRules, GhostRules.checkDeath, collide')])

P('D33', 'What a move of a ghost does to the game',
  'A ghost moves one cell, or half a cell while scared; its timer goes down by one to no less than 0, and when the scare '
  'ends it is put on the nearest grid point. If it is then within 0.7 of Pacman it is eaten if still scared (200 points, '
  'restarts) and otherwise catches him (500 points lost, game lost); nothing else changes. Starting from free cells, in '
  'every reachable state Pacman is on a free cell and a ghost is on a free cell or, only while scared, half way between '
  'two free ones.',
  ['inputs', 'histories'], 'all positions, directions, timers, walls; the reachable state claim by induction over moves',
  'No test of the game exists; half steps and the end of a scare coincide only in long games.',
  [D + 'pacman.py', D + 'game.py', D + 'util.py'],
  [('move of a ghost', 'pacman.py: GhostRules.applyAction, decrementTimer, checkDeath, collide, placeGhost')])

P('D34', 'Game states are independent values',
  'Generating successors (also refused ones), asking a state anything or copying it never changes that state, nor '
  'any state before it. A deep copy shows exactly the same, including whether the game is won or lost and who was eaten, '
  'and later changes of the copy are not seen by the original. Two states are equal exactly when the agents '
  '(position, direction, timer), food, capsules and score are, and equal states hash alike.',
  ['inputs', 'histories'], 'all states on small boards, histories of moves in every order of agents',
  'Sharing only shows when a later state is changed and an earlier one looked at again, as search agents do.',
  [D + 'game.py', D + 'pacman.py'],
  [('copies', 'game.py: GameStateData.__init__, deepCopy, AgentState.copy, Grid.copy'),
   ('equality', 'game.py: GameStateData.__eq__, __hash__; pacman.py: GameState.__eq__, __hash__')])

P('D35', 'A layout becomes exactly the board it draws',
  'In a layout text % is a wall, . food, o a capsule, P Pacman, G or 1 to 4 a ghost, anything else is free, and the last '
  'line is row 0; Pacman is agent 0 and the ghosts follow by number, then by position. The initial state has Pacman and '
  'as many of these ghosts as asked for, standing still and not scared, with score 0 and its own copy of the food and '
  'capsules; a printed state shows walls, food, capsules, agents and score where they are. Loading a layout takes the '
  'nearest file of that name in the working directory (folder layouts first) or up to three directories above, or gives '
  'nothing, and keeps the working directory. A random legal position is a free cell; the furthest corner is one than which no '
  'corner is further.',
  ['inputs'], 'all small layout texts, all limits of ghosts, all combinations of present files',
  'No test of the game exists.',
  [D + 'layout.py', D + 'game.py', D + 'pacman.py'],
  [('layouts', 'layout.py: Layout, getLayout, tryToLoad'), ('initial state', 'game.py: GameStateData.initialize, __str__')])

P('D36', 'Stack, queue and priority queue give items back in their order',
  'A stack gives back the item pushed last, a queue the one pushed first, and a priority queue (also with a priority '
  'function) one with the lowest priority, the one pushed first among equal priorities; every pushed item comes out '
  'exactly once, and emptiness is reported exactly. Updating an item of a priority queue lowers its priority if the new '
  'one is lower, otherwise changes nothing, and adds an item which is not there.',
  ['inputs', 'histories'], 'all histories of pushes and pops, all priorities with ties',
  'Order among equal priorities and updates of inner heap entries depend on the whole history.',
  [D + 'util.py'], [('containers', 'util.py: Stack, Queue, PriorityQueue, PriorityQueueWithFunction')])

P('D37', 'Counters do vector arithmetic without touching their operands',
  'A counter has count 0 for every key not set; sums, differences, dot products, totals, increments and divisions are '
  'those of the vectors of counts over the union of the keys, operands stay as they were, and a copy is independent. '
  'Normalising makes the counts sum to 1 with the same ratios and leaves a counter with total 0 alone; normalising a '
  'list likewise. The arg max is a key with the highest count (none for an empty counter) and the sorted keys are all '
  'keys by falling count.',
  ['inputs'], 'all counters over few keys with any real counts, shared and separate keys',
  'Keys in only one operand, negative and zero totals are not sampled by any test.',
  [D + 'util.py'], [('counters', 'util.py: Counter, normalize')])

P('D38', 'Random draws follow the weights of the distribution',
  'Drawing from a distribution (weights with values, a counter or dict, or pairs) returns the value whose interval of the '
  'cumulative weights, scaled to sum 1, contains the drawn random number, taking the keys of a counter in sorted '
  'order; many draws at once return one such value per random number. The distribution is not changed by it. The probability of a value is '
  'the sum of its weights, and a coin flip with probability p is true exactly when the random number is below p.',
  ['inputs'], 'all weights, normalised or not, and all random numbers off the interval ends',
  'A test draws some numbers; a biased interval shows only for certain weights and numbers.',
  [D + 'util.py'], [('draws', 'util.py: sample, sampleFromCounter, nSample, chooseFromDistribution, getProbability, flipCoin')])

P('D39', 'Ghosts and keyboard players act legally and as announced',
  'Every action of a ghost or keyboard agent is legal. A random ghost takes each legal action with equal probability; a '
  'directional ghost shares its attack probability (its flee probability when scared) among the legal actions which end '
  'nearest to (farthest from) Pacman, moving half a cell when scared, and the rest evenly among all legal ones. A keyboard agent stops '
  'on its stop key, else takes a pressed direction which is legal, else goes on in its last direction if legal, else '
  'stops; keys stay in force until others are pressed.',
  ['inputs', 'histories'], 'all positions, walls, timers and probabilities; all keys, legal sets and last moves',
  'No test of the agents exists.',
  [D + 'ghostAgents.py', D + 'keyboardAgents.py'],
  [('ghosts', 'ghostAgents.py: RandomGhost, DirectionalGhost, GhostAgent.getAction'),
   ('keyboard', 'keyboardAgents.py: KeyboardAgent, KeyboardAgent2')])

P('D40', 'A game asks agents in turn, plays their answers and ends when over',
  'A game tells every agent the start, then asks the agents one after another in turn from the first one, each with '
  'a copy of the current state (or its own observation of it), plays and records exactly the returned action, shows the new state, and stops '
  'right after the move which ends the game, telling every agent the end. When failures are to be caught, an agent '
  'which is missing, raises, times out or uses more time than allowed (in more moves than may be warned about, or in total) '
  'ends the game as crashed with nothing asked or played after it, and output and alarms are as before; otherwise its '
  'exception reaches the caller. Muted agents print to their own record only.',
  ['inputs', 'fault_sequences', 'histories'], 'all small games, one failure at any point of any agent, all durations and limits',
  'The failing point and the times used are arbitrary; no test runs a game.',
  [D + 'game.py', D + 'pacman.py'],
  [('control loop', 'game.py: Game.run, _agentCrash, mute, unmute'), ('rules', 'pacman.py: ClassicGameRules')])

P('D41', 'Time limits and muting leave no trace',
  'A function with a time limit is called once with the given arguments, its result or its exception reaches the caller, '
  'and running out of time raises the time-out exception. Whichever of these happens, afterwards no alarm is '
  'pending and the previous alarm handler is back. Muting hides exactly what is printed until unmuted, however often '
  'either is called.',
  ['inputs', 'fault_sequences'], 'all outcomes of the function (result, exception, time-out), limits, durations; all sequences of muting',
  'The outcome of the timed function is a fault schedule no test samples.',
  [D + 'util.py'], [('time limit', 'util.py: TimeoutFunction'), ('muting', 'util.py: mutePrint, unmutePrint')])

P('D42', 'Starting games: options, agents, limits, a row of games and their report',
  'Agent options are the comma separated key=value pairs of the text, a key alone meaning 1. The agent loaded is the first '
  'one of that name in a module named *gents.py of the python path and then the working directory; none, or a keyboard agent '
  'without graphics, is refused. Every time limit of the rules is the given one. Running n games plays n games one after '
  'another, each from the start of the layout to its end and with an agent per figure on the board, gives all of them back, '
  'reports exactly their scores, average, win rate and results, and keeps one file with the moves of each if recording. '
  'Training games come first and are neither shown, announced, given back nor reported. The end of a game is announced with its score unless quiet, and progress is the share of food left.',
  ['inputs', 'configurations', 'histories'],
  'all option texts, contents of the python path, limits, and courses of up to 3 games within the bounds',
  'A report is only right for every course of every game; what is on the python path differs for every user.',
  [D + 'pacman.py'], [('options', 'pacman.py: parseAgentArgs'), ('agents', 'pacman.py: loadAgent'),
                      ('rules', 'pacman.py: ClassicGameRules'), ('games', 'pacman.py: runGames')])

P('D43', 'The screen shows the state of the game',
  'After the start and after every move the canvas has exactly one dot in the cell of every remaining pellet and capsule, '
  'Pacman and every ghost in the place and looking in the direction of their own last move, ghosts in their own colour '
  'or white if they were scared then, the current score, and the unchanged walls, at every zoom. A wall cell is outlined '
  'by its eight neighbours: a rounded corner, a straight line, an inner corner or nothing in each quarter. Pacman '
  'glides from cell to cell evenly in four frames within the frame time, at once without one, and waits for a key if it is negative. '
  'There is one window, which fits the board and is closed at the end.',
  ['histories', 'inputs'], 'all courses of moves on the listed boards, all zooms, frame times and wall neighbourhoods',
  'What is on the screen is the result of the whole history of moves; there are no tests of the display.',
  [D + 'graphicsDisplay.py', D + 'graphicsUtils.py'],
  [('drawing', 'graphicsDisplay.py: PacmanGraphics.initialize, drawWalls, drawFood, drawCapsules, drawGhost, drawPacman'),
   ('moving', 'graphicsDisplay.py: PacmanGraphics.update, animatePacman, moveGhost, moveEyes, removeFood, removeCapsule'),
   ('score', 'graphicsDisplay.py: InfoPane')])

P('D44', 'Shapes are drawn, moved, coloured and removed exactly as asked',
  'A polygon, square, circle, line or text is drawn at the given coordinates with the given colours, width, angles and text. '
  'Moving by an offset moves every point by it, moving to a place puts the first point there without changing the shape, and '
  'recolouring, editing, rewriting or removing a shape changes that and nothing else on the canvas; a move lifts it above all when asked. A part of a circle runs forward from '
  'its first angle to the second. A shape drawn behind another one is right below it. Clearing leaves only the background, which covers the window. '
  'Colours are six hexadecimal digits and can be read back.',
  ['inputs', 'histories'], 'all real coordinates, sizes and angles, all kinds of shapes, all sequences of changes within the bounds',
  'There are no tests of the drawing functions; coordinates are arbitrary numbers.',
  [D + 'graphicsUtils.py'],
  [('shapes', 'graphicsUtils.py: polygon, square, circle, line, text'), ('changes', 'graphicsUtils.py: move_to, move_by, moveCircle, edit, '
   'changeText, changeColor, remove_from_screen, clear_screen'), ('colours', 'graphicsUtils.py: formatColor, colorToVector')])

P('D45', 'Keys and clicks are reported exactly, windows come and go cleanly',
  'The pressed keys are those pressed and not released by the events taken so far, the waiting keys those pressed since they were '
  'last asked for, and none after a change of focus; a key held down is never reported as released. Waiting for keys or a '
  'click comes back only when there is one, every click with its last place and button and once. Waiting takes the '
  'time asked for. At most one window is open whatever is opened, closed or fails, and a new one starts '
  'without keys. Frames are saved one file each if saving is on.',
  ['histories', 'schedules', 'fault_sequences'], 'all histories of key, focus and click events and of questions within the bounds; all waiting times',
  'The order in which events arrive between the questions is a schedule no test samples.',
  [D + 'graphicsUtils.py', D + 'graphicsDisplay.py'],
  [('keys', 'graphicsUtils.py: _keypress, _keyrelease, _clear_keys, keys_pressed, keys_waiting, wait_for_keys'),
   ('clicks', 'graphicsUtils.py: _leftclick, _rightclick, _ctrl_leftclick, wait_for_click'),
   ('windows', 'graphicsUtils.py: begin_graphics, end_graphics, sleep'), ('frames', 'graphicsDisplay.py: saveFrame')])

P('D46', 'Overlays and information on the screen are right for every board',
  'Beliefs colour every cell by the weights the distributions give to it, behind everything else, and leave the distributions '
  'alone. Explored cells are drawn over their cells, the first ones brighter; drawing again replaces them and clearing removes all. '
  'Ghost distances are one text per ghost in its colour, always the latest ones. The team is shown by its name. '
  'The first person view shows what the other view shows, except that hidden ghosts above the first row are off the screen. '
  'With two teams walls and food have the colour of their half, Pacman figures an outline in the colour of their team, and an '
  'agent which turns from a ghost into Pacman or back is drawn as that from then on.',
  ['inputs', 'histories'], 'all weights, cells, distances and zooms within the bounds; all courses of moves',
  'There are no tests of the display, and an overlay depends on what was drawn before.',
  [D + 'graphicsDisplay.py'],
  [('beliefs', 'graphicsDisplay.py: PacmanGraphics.drawDistributions, updateDistributions'),
   ('explored cells', 'graphicsDisplay.py: PacmanGraphics.drawExpandedCells, clearExpandedCells'),
   ('information', 'graphicsDisplay.py: InfoPane.updateGhostDistances, setTeam'), ('first person', 'graphicsDisplay.py: FirstPersonPacmanGraphics')])

P('D47', 'The command line of the demo gives the game which was asked for',
  'Whatever options are given, in either spelling and in any order, the game has the board, agent, ghosts, display, speed, zoom, number of '
  'games, recording, random seed, training games, timeout and options of the agent which were asked for, and its default for everything '
  'not given. Unknown options, words, values, boards and agents, options for the keyboard agent and the keyboard without graphics are refused.',
  ['inputs', 'configurations'], 'all selections of options and values within the bounds',
  'There are no tests of the command line, and options interact.',
  [D + 'pacman.py', D + 'demo.py'],
  [('options', 'pacman.py: readCommand, default, parseAgentArgs, loadAgent'), ('demo', 'demo.py: _build_configuration, main')])

P('D48', 'Small helpers of the demo are right for every input',
  'sign is 1 for numbers not below zero, else -1. Transposing swaps rows and columns of any matrix; the cells with a value are exactly those. '
  'Looking up a name gives the only thing of that name in the namespace or its modules, or in the module whose path is given, and '
  'refuses anything else. A random legal position is never a wall. A fixed random source always gives the same numbers. '
  'Replacing a column of a grid changes that column only. The text of an agent tells its kind, place and direction.',
  ['inputs'], 'all numbers, matrices, namespaces, boards and draws within the bounds',
  'There are no tests of the helpers.',
  [D + 'util.py', D + 'layout.py', D + 'game.py'],
  [('helpers', 'util.py: sign, arrayInvert, matrixAsList, lookup, FixedRandom'), ('random place', 'layout.py: Layout.getRandomLegalPosition'),
   ('grid and texts', 'game.py: Grid.__setitem__, Configuration.__str__, AgentState.__str__')])

# --- more below ---


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks = [{
        'property': p['id'],
        'quick_cmd': f"./check {p['id']} quick",
        'thorough_cmd': f"./check {p['id']} thorough",
        'technique': 'solver-based dynamic symbolic execution of the real source (z3)',
        'level': 'model_checking',
        'level_note': p['note'] or 'All paths of the real code within the stated bounds, branch feasibility and '
                                   'assertions decided by z3; counterexamples are replayed on the unmodified code.',
    } for p in PROPS]
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
                   'notes': 'No hooks in /repo: the checks load the current source through an AST-rewriting importer.'},
                  f, indent=1)
        f.write('\n')


NOT_APPLICABLE = []

if __name__ == '__main__':
    main()
