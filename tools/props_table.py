NET = "pymnet/net.py"
ENGINE = ("Sound up to the modelled Python fragment: context depth 2 (quick) or 3 (thorough), opaque treatment of third-party "
          "libraries, abstract argument networks closed under the public constructors and mutators. Entry points over the work "
          "budget are listed in the evidence and not claimed.")

prop("P01", "Functions do not modify the networks they are given",
     "No public function or query method changes a network passed to it (its nodes, layers, links, weights, couplings or any "
     "internal table), whatever options are used; the only exceptions are the documented in-place entry points (adding and removing "
     "nodes, layers and links on the network itself, the explicit output-network arguments, and sampling with copying switched off). "
     "This includes every intermediate moment that survives an exception: links are not taken out and put back.",
     ["inputs", "histories", "configurations"],
     "every public function and method x every network reachable by a sequence of constructor and mutator calls x every option value",
     "Tests compare a network before and after for two or three functions on one small network each; the guarantee ranges over some 270 "
     "entry points, all option combinations and all networks.",
     ["pymnet/net.py", "pymnet/transforms.py", "pymnet/cc.py", "pymnet/diagnostics.py", "pymnet/models.py", "pymnet/graphlets", "pymnet/sampling",
      "pymnet/isomorphisms", "pymnet/visuals", "pymnet/netio.py", "pymnet/nxwrap.py"],
     [("derived networks are built in fresh objects", "pymnet/transforms.py subnet, aggregate, overlay_network, threshold, relabel"),
      ("copy before removal", "pymnet/sampling/esu.py sample_multilayer_subgraphs_esu")],
     "interprocedural points-to and side-effect analysis over the syntax trees", ENGINE)

prop("P02", "Functions do not modify other caller-owned objects or shared state",
     "No public function or method changes a list, dictionary, set, data frame or other mutable object passed to it as an argument, a shared default "
     "argument value, or module-level state, except for arguments documented as outputs. Hence calling a function twice with the same "
     "arguments starts from the same state both times.",
     ["inputs", "histories", "configurations"],
     "every public function and method x every argument object x every option value",
     "Tests build fresh arguments for every call, so changes to them are invisible, and never call in the order that would reveal polluted "
     "defaults or module state.",
     ["pymnet/transforms.py", "pymnet/graphlets", "pymnet/sampling", "pymnet/visuals", "pymnet/models.py", "pymnet/net.py"],
     [("argument lists and maps are copied before being completed", "pymnet/transforms.py relabel; pymnet/sampling/reqs.py")],
     "interprocedural points-to and side-effect analysis over the syntax trees", ENGINE)

prop("P03", "Returned values share no changeable storage with the argument networks",
     "Whatever a function or query method returns (networks, sets, dictionaries, lists) can be changed freely without affecting the networks it was "
     "called with, and later changes to those networks do not show up in it. Only the documented live views (node handles, edge views, "
     "intra-layer networks, NetworkX wrappers) and coupling networks given by the user are shared.",
     ["inputs", "histories"],
     "every public function and method x every network x every later sequence of changes to either side",
     "Tests inspect the returned value once and throw it away; aliasing only shows when one of the two objects is changed afterwards.",
     ["pymnet/net.py", "pymnet/transforms.py", "pymnet/models.py", "pymnet/diagnostics.py", "pymnet/graphlets", "pymnet/sampling"],
     [("derived networks copy slices and links through the public setters", "pymnet/transforms.py"), ("get_layers copies", "pymnet/net.py")],
     "interprocedural points-to and escape (reachability) analysis", ENGINE)

prop("P16", "No container is resized while it is being iterated",
     "No function adds or removes elements of a dictionary, set or list (including the tables behind edge, node and neighbor iterators of a network) "
     "inside a loop that is walking that container lazily and then goes on to the next step. Removals during a walk go through a copy.",
     ["inputs", "histories"],
     "every loop and comprehension of the package x every path through its body x every network",
     "A resize during iteration raises only when an element is actually added or removed before the last step; small or empty test networks often "
     "miss it, and list resizes skip elements silently.",
     ["pymnet/net.py", "pymnet/transforms.py", "pymnet/graphlets", "pymnet/sampling", "pymnet/models.py", "pymnet/cc.py"],
     [("edges are copied into a list before links are removed", "pymnet/transforms.py threshold; pymnet/models.py")],
     "points-to analysis of lazily walked containers joined with resize effects per loop path", ENGINE)

FLOW = ("Exact over the abstract domain (opaque names and weights, membership facts for representative node-layers, and where stated one arbitrary "
        "other element) for up to two aspects; constructs outside the modelled Python fragment make the case abstain, which the evidence counts. "
        "Partial beyond that: more aspects are not explored.")

prop("P04", "Derived networks keep the configuration of their source",
     "Subnetworks, relabeled, normalized, thresholded, aggregated and overlay networks have the directedness and the missing-link value of the "
     "network they are derived from, keep its full interconnection where the result still has layers, and keep the coupling weights where it is still "
     "a multiplex network. No derived network silently falls back to the defaults of the constructor.",
     ["inputs", "configurations"],
     "every deriving function x every source configuration (class, directedness, full interconnection, missing-link value, couplings)",
     "Tests derive from default undirected fully interconnected networks with noEdge 0, where forgetting to pass the configuration on changes nothing.",
     ["pymnet/transforms.py", "pymnet/graphlets/graphlets.py"],
     [("construction of result networks", "pymnet/transforms.py subnet, relabel, threshold, aggregate, overlay_network, get_underlying_graph")],
     "interprocedural value-flow analysis of configuration fields from the source network to constructor fields of result networks", ENGINE)

prop("P05", "An undirected link reads the same from both ends after every change",
     "After setting or removing any link of an undirected network, in any of the access forms, the link has the value set (or the missing-link value) "
     "when read from either end, it is in both neighborhoods or in none, and no other link changes. This holds for self-links and for links inside and "
     "between layers, and through the intra-layer networks of a multiplex network.",
     ["inputs", "histories"],
     "every network content x every pair of node-layers (all patterns of equal coordinates) x set and remove x every access form",
     "Tests set a few links of an initially empty network and read them in one form; the two halves of a link drift apart only for particular orders, "
     "self-links, removal of absent links or non-default missing-link values.",
     [NET],
     [("_set_link and _set_link_to_no_edge", "pymnet/net.py MultilayerNetwork"), ("edge dispatch of multiplex networks", "pymnet/net.py MultiplexNetwork")],
     "path-sensitive abstract interpretation of the link setters over a membership-fact domain", FLOW)

prop("P06", "Directed links keep outgoing, incoming and total degrees in step",
     "After setting or removing any link of a directed network, the link is listed as outgoing at its start exactly when it is listed as incoming at its end, "
     "with the same weight, and the total degree of both ends counts each link that starts or ends there. No change leaves one of the three records behind.",
     ["inputs", "histories"],
     "every directed network content x every pair of node-layers x set, overwrite and remove, in every order",
     "Tests check degrees of freshly built directed networks; the three records only disagree after overwriting, removing or self-links.",
     [NET],
     [("_net, _rnet and _totalDegree", "pymnet/net.py MultilayerNetwork._set_link_to_no_edge and _set_link_forward")],
     "path-sensitive abstract interpretation of the link setters over a membership-fact domain", FLOW)

prop("P07", "Degrees, strengths and neighbor lists agree with the links",
     "For every node and node-layer, every direction (out, in, total) and every restriction to a layer or neighbor set, the neighbors iterated are "
     "exactly those the links lead to, the degree is their number, and the strength is the sum of the weights of these links.",
     ["inputs", "configurations"],
     "every network content x every node-layer handle x every restriction x every direction",
     "Degree shortcuts, iteration and link lookup are three separate implementations; tests compare them on two example networks with default options.",
     [NET],
     [("_get_degree, _get_degree_out, _iter_neighbors, _get_strength", "pymnet/net.py"), ("slice restrictions", "pymnet/net.py MultilayerNode")],
     "path-sensitive abstract interpretation of the query methods over a membership-fact domain", FLOW)

prop("P08", "Nodes, layers and link ends are registered everywhere they must be visible",
     "After a link is set or a node or layer is added, in any form, its nodes, layers and node-layer memberships are visible in the node and layer sets, "
     "the nodes of the layer, the layers of the node, and the intra-layer network of a multiplex network. Nothing that was registered before disappears and "
     "no unrelated element appears.",
     ["inputs", "histories"],
     "every network content x every added link, node and layer x every class and full-interconnection setting",
     "Registration is kept in up to four tables with lazily created entries; tests look at one of them after adding to an empty network.",
     [NET],
     [("add_node, add_layer, _add_node_to_layer", "pymnet/net.py"), ("on-demand registration in _set_link", "pymnet/net.py"),
      ("intra-layer network registration", "pymnet/net.py _IntraNetDict, MultilayerNetworkWithParent")],
     "path-sensitive abstract interpretation of the mutators over a membership-fact domain", FLOW)

prop("P09", "Coupling links look the same however they are asked for",
     "In a multiplex network with categorical, ordinal, no or user-given network couplings, a coupling link is iterated from a node-layer exactly when looking "
     "it up gives a weight, and the degree and strength along that aspect are the number and weight sum of those links. This also holds when not every node "
     "is in every layer and with several aspects.",
     ["inputs", "configurations"],
     "every coupling kind x number of aspects x full interconnection x membership of nodes in layers x node-layer asked",
     "Lookup, iteration, degree and strength of couplings are four independent case distinctions over the coupling kind; tests cover categorical couplings of "
     "fully interconnected one-aspect networks.",
     [NET],
     [("_get_edge_inter_aspects, _iter_dim, _get_dim_degree, _get_dim_strength, _has_dim_link", "pymnet/net.py MultiplexNetwork")],
     "path-sensitive abstract interpretation of the coupling queries over a membership-fact domain", FLOW)

prop("P24", "Edge and node iteration is complete and the supra-adjacency matrix matches",
     "Iterating the edges of a network gives every link exactly once (once per direction when directed) with its weight, the number of edges is that count, node and "
     "node-layer iteration visits every registered element, and the supra-adjacency matrix holds exactly the links between the listed node-layers.",
     ["inputs", "configurations"],
     "every network content (over representative node-layers) x class x directedness x full interconnection x couplings",
     "Duplicate suppression and the coupling part of the iteration depend on which node-layers exist; tests count edges in a few regular networks.",
     [NET],
     [("edges view", "pymnet/net.py MultilayerNetwork._iter_edges, MultiplexNetwork._iter_edges"), ("get_supra_adjacency_matrix", "pymnet/net.py")],
     "path-sensitive abstract interpretation over closed representative contents", FLOW)

prop("P25", "Networks are equal exactly when their content and configuration are",
     "Two networks compare equal exactly when they have the same class, directedness, full interconnection, missing-link value and couplings, the same nodes, layers "
     "and memberships, and the same links with the same weights. Comparing never raises, and != is always the negation of ==.",
     ["inputs"],
     "every pair of networks over representative node-layers, with independent contents and configurations",
     "Tests compare equal copies and one or two clearly different networks; equality must notice every single difference.",
     [NET],
     [("__eq__ and __ne__", "pymnet/net.py MultilayerNetwork, MultiplexNetwork, MultilayerNetworkWithParent")],
     "path-sensitive abstract interpretation of the comparison over two independent closed contents", FLOW)

prop("P10", "No operation ends in an internal lookup failure",
     "Whatever public operation is called, in whatever option and error branch, every name it uses is defined and imported there, every attribute it takes of the "
     "library's own objects, modules and of the standard library exists, and every call of a library function fits its parameters. Error branches raise the "
     "exception they mean to raise rather than failing while building it.",
     ["inputs", "configurations", "programs"],
     "every name, attribute and call site of the package, on every branch, for every class of receiver that can reach it",
     "Python resolves names and attributes only when the line runs; tests never reach most option and error branches, nor every class of network each helper can be given.",
     ["pymnet/net.py", "pymnet/transforms.py", "pymnet/models.py", "pymnet/nxwrap.py", "pymnet/netio.py", "pymnet/visuals", "pymnet/sampling",
      "pymnet/graphlets", "pymnet/isomorphisms", "pymnet/cc.py", "pymnet/diagnostics.py", "pymnet/layouts.py"],
     [("names and imports of every module", "pymnet"), ("attribute and call resolution per receiver class", "pymnet/net.py, pymnet/nxwrap.py, pymnet/visuals")],
     "scope, import and member resolution over all syntax trees joined with points-to sets of receivers and call targets",
     "Names, imports, self attributes, module members and arities are decided for all code. Receivers that are not 'self' are decided where the points-to "
     "analysis finds library classes only; third-party objects are not resolved.")

prop("P11", "Process-wide state is put back on every way out",
     "A function that temporarily replaces something other code relies on (a class or function of another module, the global working state of a library) restores the "
     "original on every way out, including when the wrapped code raises. After any call, successful or not, plain NetworkX, matplotlib and the library itself "
     "behave as before.",
     ["fault_sequences", "inputs"],
     "every function that rebinds a member of a module or class x every path out of it, exceptional ones included",
     "Tests call the wrapped functions successfully; a leak needs an exception inside the wrapped call and then an unrelated use of the patched library.",
     ["pymnet/nxwrap.py", "pymnet"],
     [("networkx.Graph is replaced while a wrapped function runs", "pymnet/nxwrap.py networkxdecorator")],
     "typestate analysis of saved and rebound module members over all normal and exceptional exits",
     "Every statement between the replacement and its restoration is assumed able to raise. Helpers and decorators of the package are followed; replacement "
     "through setattr with a computed name is not.")

prop("P20", "The seed argument determines every random draw",
     "A function that takes a seed draws random numbers only after the generator has been seeded with that value and uses no other source of randomness, so two "
     "calls with the same arguments and seed draw the same numbers whatever happened before. Functions without a seed never reseed the shared "
     "generator and draw from no other, so seeding it before the call determines them too.",
     ["inputs", "histories", "configurations"],
     "every function with a seed argument x every path to a random draw, including draws in the functions it calls",
     "A test with one fixed seed passes even when one branch draws from the unseeded generator, because only repeated runs with different histories show it.",
     ["pymnet/sampling", "pymnet/models.py", "pymnet/transforms.py", "pymnet/visuals"],
     [("seeding of the sampling functions", "pymnet/sampling/esu.py, pymnet/sampling/creators.py")],
     "definite-initialisation dataflow analysis from the seed argument to all random draws over the call graph",
     "All paths of the functions and of the package functions they call are followed; iteration order of sets of opaque names is outside the analysis.")

prop("P23", "Generators and readers build networks with the options asked for",
     "Network generators and file readers that take couplings, directedness or full interconnection as options give every network they return exactly these, on "
     "every path, rather than the defaults of the constructor.",
     ["inputs", "configurations"],
     "every generator and reader with such options x every option value x every path to a returned network",
     "Tests generate with one option value, mostly the default, where dropping the option on some branch changes nothing.",
     ["pymnet/models.py", "pymnet/netio.py"],
     [("construction of result networks", "pymnet/models.py conf, er, er_multilayer; pymnet/netio.py read_ucinet, read_edge_file")],
     "interprocedural value-flow analysis of option values to constructor fields of result networks", ENGINE)

prop("P27", "Derived networks contain exactly the nodes, layers and links they should",
     "Subnetworks hold exactly the selected nodes, layers, memberships and the links among them; relabeling and normalizing give the image under the maps; thresholding "
     "keeps exactly the links that pass; aggregating and overlaying sum the weights of exactly the links they merge; the underlying graph and the layerwise "
     "randomization are one-to-one images. Enumerating subnetworks gives each one exactly once.",
     ["inputs", "configurations"],
     "every network content (over representative node-layers) x class x directedness x full interconnection x missing-link value x selection, renaming or threshold",
     "Tests derive from one or two default networks and check a few links; lost layers, doubled weights or links dropped for particular memberships, selections "
     "or missing-link values stay unseen.",
     ["pymnet/transforms.py", NET],
     [("subnet, relabel, normalize, threshold, aggregate, overlay_network, get_underlying_graph, randomize_nodes_by_layer, subnet_iter", "pymnet/transforms.py")],
     "path-sensitive abstract interpretation of the deriving functions over closed representative contents", FLOW)

prop("P12", "Isomorphism functions answer for exactly the isomorphic networks",
     "For undirected networks, every backend and every set of aspects that may be permuted, two networks are reported isomorphic exactly when a bijection of the allowed "
     "aspects maps the node-layers and links of one to those of the other; equal complete invariants mean the same. Returned mappings are such bijections, with or without "
     "fixed elements as asked, and the generators are automorphisms that miss none when the backend enumerates all.",
     ["inputs", "configurations"],
     "every pair of network contents (over representative node-layers) x class x full interconnection x allowed aspects x backend x option to include fixed elements",
     "Tests compare a few hand-made pairs with every layer in use; a wrong color, a forgotten edge to an auxiliary vertex or a lost isolated element shows only for "
     "particular pairs and particular allowed aspects.",
     ["pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/isomorphisms/blissbackend.py", "pymnet/isomorphisms/__init__.py"],
     [("reduction to colored graphs", "pymnet/isomorphisms/isomcore.py"), ("backends", "pymnet/isomorphisms/nxbackend.py")],
     "path-sensitive abstract interpretation of the reduction over pairs of closed representative contents, third-party graph libraries replaced by their specification", FLOW)

prop("P15", "Degree tables and densities are the exact counts",
     "Degree distributions and degree tables count every node or node-layer exactly once with its number of neighbors, densities are the number of links divided by the "
     "number of possible ones, and overlap degrees count for every combination of layers exactly the links that are in all of these layers and no other, whatever their weights.",
     ["inputs", "configurations"],
     "every network content (over representative node-layers) x class x directedness x full interconnection x couplings x kind of table",
     "Tests compute the tables of one or two unit-weight, undirected, fully interconnected networks; wrong denominators, weights taken for counts and nodes missing from "
     "a table show only for other contents.",
     ["pymnet/diagnostics.py", "pymnet/transforms.py", NET],
     [("degs, density, multiplex_degs, multiplex_density, overlap_degs", "pymnet/diagnostics.py")],
     "path-sensitive abstract interpretation of the counting functions over closed representative contents", FLOW)

prop("P17", "Generated networks have exactly the nodes, layers and degrees asked for",
     "Every network generator returns exactly the requested nodes and layers, including those that get no links, with links only where the model allows them and of weight 1 "
     "unless random weights are asked for. Requested numbers of links, degrees per node, overlap degrees and links per new node are met exactly, and with given link "
     "probabilities every allowed set of links can come out, for every outcome of the random draws.",
     ["inputs"],
     "every outcome of the random draws (searches that draw again are followed for a bounded number of draws) x representative node lists, layers, degrees and numbers of links",
     "Tests generate a few networks from a fixed or no seed and check sums; nodes without links, rejected draws and rare shuffles are lost in the noise.",
     ["pymnet/models.py", "pymnet/sampling/creators.py", NET],
     [("full, full_multilayer, er, er_multilayer, er_partially_interconnected, conf, conf_overlaps, er_overlaps_match_aggregated, ba_total_degree, ws, geo", "pymnet/models.py"),
      ("er_multilayer_partially_interconnected", "pymnet/sampling/creators.py")],
     "path-sensitive abstract interpretation of the generators with every random draw as a branch, over representative arguments",
     "Interpretation of the syntax trees, nothing of the library is run. Random draws, link probabilities and node names are abstract; numbers of nodes and layers are small "
     "representative ones, and rejection loops are followed for three draws. The Watts-Strogatz and geometric generators of NetworkX are assumed to be right.")

prop("P18", "Clustering coefficients equal the value of their definition",
     "The local and global clustering coefficients of weighted networks and of multiplex networks (link weights 1 for the triangle and alternating-walk versions), and the "
     "elementary cycle counts around a node, a node-layer, a layer or the whole network, equal the value of their definition for every undirected network, with or without "
     "nodes missing from layers. Where the definition has no value the documented replacement is returned; the versions computed by matrix products are not included.",
     ["inputs"],
     "every pattern of links and of nodes missing from layers up to renaming (4 nodes on one layer, 3 nodes on 2 and 3 layers, 4 nodes on 2 layers), every positive link weight",
     "Tests compare two implementations on one random network each and a few hand-made values; a walk counted twice or a layer left out shows only for particular "
     "patterns of links and absent nodes.",
     ["pymnet/cc.py", "pymnet/transforms.py", NET],
     [("lcc, cc_zhang, gcc_zhang, cc_onnela, cc_barrat, cc_barrett and variants, elementary_cycles, lcc_aw, avg_lcc_aw, sncc_aw, gcc_aw and variants, lcc_brodka, "
       "lcc_battiston1, lcc_battiston2, lcc_criado, gcc_super_graph", "pymnet/cc.py")],
     "path-sensitive abstract interpretation of the coefficients over representative link patterns with symbolic weights; results compared as exact rational functions", 
     "Interpretation of the syntax trees, nothing of the library is run. Node names, layers and weights are symbols (weights range over all positive values in a fixed order); "
     "the link patterns are the representative ones listed, so a defect that needs more nodes or layers is out of reach. The versions by matrix products are not analysed.")

prop("P14", "Subgraph samplers return every acceptable subgraph exactly once",
     "Enumerating the induced subgraphs of a multilayer network by sampling with all probabilities one, or by brute force, returns every acceptable combination of nodes and "
     "layers exactly once and no other: connected, without empty nodes or layers, and with the sizes and intersections asked for under some order of its layers. "
     "With given probabilities, every acceptable subgraph is returned at most once, with the product of the probabilities, whether or not the network is copied first.",
     ["inputs", "configurations"],
     "every outcome of the random draws x every pattern of node-layers and links on 2x2, 3x1 and 1x3 nodes and layers, representative ones on 3x2, 2x3, 4x2 and 3x3 x every kind of requirement",
     "Tests compare the sampler with brute force on a few random networks and estimate frequencies; a subgraph reached along two ways or cut off by the numbering of "
     "the node-layers needs a particular pattern, and a wrong probability is lost in the noise.",
     ["pymnet/sampling/esu.py", "pymnet/sampling/dumb.py", "pymnet/sampling/reqs.py", "pymnet/transforms.py"],
     [("sample_multilayer_subgraphs_esu", "pymnet/sampling/esu.py"), ("dumb_enumeration", "pymnet/sampling/dumb.py"), ("default_check_reqs, relaxed_check_reqs", "pymnet/sampling/reqs.py")],
     "path-sensitive abstract interpretation of the samplers with every random draw as a branch, probabilities summed as polynomials",
     "Interpretation of the syntax trees, nothing of the library is run. Random draws and probabilities are symbols; patterns are small representative ones, links undirected; "
     "connectivity in NetworkX is replaced by its specification. Sets give up their elements in one order, all labelings of the small patterns stand for the others.")
prop("P13", "The NetworkX view of a network is the network's own links",
     "A single-layer undirected network handed to NetworkX lists exactly its nodes and, for each, exactly its neighbors, with the right counts, membership answers and weights. "
     "It stays so while the network changes, and every node, link, weight or removal written through the view is what the network itself then holds, from both ends, and nothing else changes.",
     ["inputs", "histories"],
     "every pattern of links, self-links included, of up to three nodes x every kind of write through the view or the network at every pair x both kinds of missing-link value",
     "Tests hand a few small networks to NetworkX and compare results; self-links, removals, attribute copies and other missing-link values are not among them.",
     ["pymnet/nxwrap.py", "pymnet/net.py"],
     [("MonoplexGraphWrapper_adj, _adjlist, _singleedge, _node", "pymnet/nxwrap.py"), ("autowrap", "pymnet/nxwrap.py")],
     "path-sensitive abstract interpretation of the view's mappings, as built and after each kind of write",
     "Interpretation of the syntax trees, nothing of the library or of NetworkX is run; node names without tuples; what NetworkX does with the mappings is outside.")
