# Source of properties.jsonl and of the checks in MANIFEST.json (meta/gen.py).
# (id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], observe_at)
PROPS = []
def P(id, title, statement, over, q, why, files, mech, obs):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, obs=obs))

P("P01", "Index and offset encodings are faithful",
  "A node index, port index, optional index or port offset returns exactly the value (and direction, and presence) it was built from; equality and ordering agree with those values. Values outside the representable range are rejected, never silently altered.",
  ["inputs"], "every machine-word value, every pair of values, both directions, for the index widths u8, u16, u32, u64 and usize",
  "Tests sample a handful of small values; the encodings pack a flag bit, a 'none' value and an offset by one into a word, so mistakes sit at boundaries of a 64-bit space.",
  ["src/index.rs"], [("BitField packing of flag and value", "src/index.rs BitField"), ("optional index encoding", "src/index.rs MaybeNodeIndex/MaybePortIndex"), ("offset encoding", "src/index.rs PortOffset")],
  ["NodeIndex::try_from/new/index", "PortIndex", "MaybeNodeIndex::to_option/replace/take", "PortOffset::new/direction/index/opposite"])
P("P02", "Linking: a symmetric one-to-one relation, or a refusal that changes nothing",
  "Linking two ports succeeds exactly when both exist, have opposite directions and are both free, and then each port's link is the other; otherwise the error names a real cause and the graph is unchanged. Unlinking returns the previous partner and frees exactly those two ports; the link count always equals the number of linked pairs.",
  ["inputs", "histories"], "every pair of port indices or node/offset pairs (live, freed, never allocated) in every sequence of link and unlink calls",
  "Tests link a few fixed ports; error precedence, stale indices and relinking combine into far more cases than they list.",
  ["src/portgraph.rs", "src/view.rs"], [("link_ports / unlink_port", "src/portgraph.rs impl LinkMut"), ("link_nodes / link_offsets", "src/view.rs trait LinkMut")],
  ["LinkMut::link_ports", "LinkMut::link_nodes", "LinkMut::link_offsets", "LinkMut::unlink_port", "LinkView::port_link", "LinkView::link_count"])
P("P03", "Nodes, ports and counts agree after any history",
  "After any sequence of additions, removals, links, resizes, clears, reservations, compactions and swaps, the graph reports exactly the nodes and ports that history created and did not remove: membership, owner, direction, offset, index lookups, counts and iteration all agree with each other. Requests beyond the documented port-count limits are refused instead of being truncated.",
  ["histories", "inputs"], "every history of the mutating operations, with arbitrary node and port indices and port counts",
  "Tests run a few scripted histories; free lists of nodes and of port slabs interact only in particular orders of removal, resizing and reuse.",
  ["src/portgraph.rs", "src/portgraph/iter.rs"], [("node and port slab allocation, free lists", "src/portgraph.rs alloc_node/alloc_ports/free_node/free_ports"), ("metadata lookups", "src/portgraph.rs impl PortView"), ("node and port iterators", "src/portgraph/iter.rs")],
  ["PortView (all methods)", "PortMut (all methods)"])
P("P04", "Removing a node removes it, its ports and its links, and nothing else",
  "Removing a node deletes exactly that node, its ports and the links touching them; every other node, port, index and link stays as it was, and removing an absent node does nothing. A slot reused later carries nothing over: its ports start unlinked, and no live index is handed out twice.",
  ["histories", "inputs"], "every graph, every removed node, every later sequence of additions and removals that reuses the freed slots",
  "Tests remove one or two nodes in fixed graphs; leftovers only show after particular reuse patterns of slabs of equal size.",
  ["src/portgraph.rs"], [("remove_node / free_node / free_ports", "src/portgraph.rs impl PortMut"), ("slab reuse", "src/portgraph.rs alloc_ports")],
  ["PortMut::remove_node", "PortMut::add_node", "PortView", "LinkView::port_link"])
P("P05", "Resizing a node keeps every surviving port and its link",
  "Changing a node's port counts keeps the leading ports of each direction at their offsets with their links, drops exactly the trailing ones (unlinking them), and gives the new ones no link; other nodes are unaffected. The callback reports each removed port once with its former link and every port whose index changed with its new index.",
  ["histories", "inputs"], "every pair of old and new port counts (with or without spare capacity), every link pattern including self-links, repeated resizing",
  "Tests resize a few nodes; the in-place shift, its direction, and the reallocation path depend on counts, capacity and link pattern together.",
  ["src/portgraph.rs"], [("set_num_ports reallocation", "src/portgraph.rs set_num_ports"), ("in-place shift", "src/portgraph.rs resize_ports_inplace")],
  ["PortMut::set_num_ports", "PortOperation", "LinkView::port_link", "PortView::port_index"])
P("P06", "Compaction only renames, and reports every renaming",
  "Compacting nodes or ports yields the same graph up to the renaming reported through the callback, with the live indices gathered at the front; links, port order and counts are preserved. Shrinking changes no index, and the graph stays fully usable afterwards.",
  ["histories", "inputs"], "every graph reached by additions, removals, resizes and links; either compaction, both orders; further operations afterwards",
  "Tests compact a couple of graphs; the in-place link rewriting depends on which indices are free between linked ports.",
  ["src/portgraph.rs"], [("compact_nodes", "src/portgraph.rs"), ("compact_ports link rewriting", "src/portgraph.rs")],
  ["PortMut::compact_nodes", "PortMut::compact_ports", "PortMut::shrink_to_fit"])
P("P07", "Swapping node indices exchanges exactly two nodes",
  "Swapping two node indices exchanges the nodes there (either slot may be empty): ports keep their indices and links and report the new owner. Nothing else changes, and later additions and removals behave as if the nodes had always been in their new places.",
  ["histories", "inputs"], "every pair of slots, occupied or free, in every graph reached by additions and removals, and every later history",
  "The existing test swaps occupied nodes once; the free-list repair only matters when nodes are added or removed afterwards.",
  ["src/portgraph.rs"], [("swap_nodes and free list repair", "src/portgraph.rs swap_nodes")],
  ["PortMut::swap_nodes", "PortMut::add_node", "PortMut::remove_node"])
P("P08", "Link and neighbour queries enumerate exactly the link relation",
  "The links, neighbours and connections reported for a node, a direction or a pair of nodes are exactly those of the link relation, in port order and with multiplicity; a self-link appears once among all links of its node. Absent nodes have none.",
  ["inputs", "histories"], "every link pattern (multi-edges, self-links), every node, direction and pair of nodes, after any operation",
  "Tests query a few fixed graphs; the iterators filter ranges of the link table whose correctness depends on slab layout.",
  ["src/portgraph/iter.rs", "src/portgraph.rs", "src/view.rs"], [("NodeLinks / Neighbours / NodeConnections", "src/portgraph/iter.rs")],
  ["LinkView::links", "LinkView::all_links", "LinkView::neighbours", "LinkView::all_neighbours", "LinkView::get_connections", "LinkView::connected", "LinkView::port_links"])
P("P09", "Graph iterators obey the iterator contract",
  "Every iterator over nodes, ports, offsets, links, neighbours or connections yields the same items whether stepped, skipped, counted, folded or cloned, its size hint always bounds what is left, and it stays exhausted.",
  ["inputs", "histories"], "every graph state with freed slots and partial links, every iterator, every position in it",
  "Tests check collected results; the hand-written nth, count and size_hint disagree with next only for particular layouts and positions.",
  ["src/portgraph/iter.rs"], [("hand-written next/nth/count/size_hint", "src/portgraph/iter.rs")],
  ["PortView iterators", "LinkView iterators"])

P("P12", "MultiPortGraph: any number of links per port, each kept exactly",
  "A port of a multigraph may hold any number of links; linking succeeds exactly when both ports exist with opposite directions, on fresh or free subports, and otherwise changes nothing. The subport relation is symmetric and one-to-one; unlinking a subport drops one link, unlinking a port drops all of its links, and the counts, subports and link queries are exactly those of the relation.",
  ["inputs", "histories"], "every sequence of link, unlink, subport link and subport unlink calls over any ports",
  "Tests build a few fixed multigraphs; the hidden copy nodes, the flags and the order in which the first and second links are made interact in many more ways.",
  ["src/multiportgraph.rs", "src/multiportgraph/iter.rs"], [("subport allocation in copy nodes", "src/multiportgraph.rs get_free_multiport / link_ports"), ("subport and link iterators", "src/multiportgraph/iter.rs")],
  ["LinkMut::link_ports", "LinkMut::unlink_port", "MultiMut::link_subports", "MultiMut::unlink_subport", "MultiView::subport_link", "LinkView::port_links", "PortView counts"])
P("P13", "MultiPortGraph: structural changes keep the multi-links",
  "Removing or resizing a node, compacting, swapping, shrinking or clearing a multigraph affects its nodes, ports and multi-links as it would those of a plain port graph: the links of removed ports vanish, all others keep their end points and order, up to the reported renaming. No internal node or port is ever listed, or left behind once its port is gone; a change asked for by an index that is not a node or port of the multigraph does nothing.",
  ["histories", "inputs"], "every pattern of multi-links and self-links, every structural operation and every later link or change",
  "Tests apply one change to one fixed multigraph; the copy nodes and flags have to follow every renumbering, which only some link patterns reveal.",
  ["src/multiportgraph.rs"], [("copy node bookkeeping on removal, resizing, compaction", "src/multiportgraph.rs impl PortMut")],
  ["PortMut::remove_node", "PortMut::set_num_ports", "PortMut::compact_nodes", "PortMut::compact_ports", "PortMut::swap_nodes", "PortMut::clear", "LinkView", "MultiView"])

P("P14", "Hierarchy: always a forest with ordered children",
  "Attaching a node succeeds exactly when it is detached and not the new parent or one of its ancestors (nor beside a root), and puts it at the requested position; refusals name the reason and change nothing. Parents, child counts, first/last, sibling links, the children iterator from both ends and the breadth-first descendants all describe the same forest; detaching or removing a node affects exactly the relations it takes part in.",
  ["inputs", "histories"], "every sequence of push, insert, detach and remove calls on any nodes",
  "Tests build one tree; sibling pointers, counts and cycle checks interact across arbitrary sequences of attachments and removals.",
  ["src/hierarchy.rs"], [("doubly linked sibling lists", "src/hierarchy.rs push_child / insert_before / insert_after / detach"), ("cycle check", "src/hierarchy.rs cycle_check"), ("iterators", "src/hierarchy.rs Children / Descendants")],
  ["Hierarchy::push_child", "Hierarchy::insert_before", "Hierarchy::detach", "Hierarchy::remove", "Hierarchy::children", "Hierarchy::descendants", "Hierarchy::parent/first/last/next/prev/child_count"])
P("P15", "Hierarchy: renaming and shrinking preserve the forest",
  "Swapping two nodes exchanges their places in the forest, also when one is the parent or a sibling of the other; rekeying moves a node to an unused index and panics on an occupied one; shrinking disconnects exactly the nodes beyond the capacity. Propagating a node compaction with rekey keeps the forest's shape, and equality means the same forest.",
  ["inputs", "histories"], "every forest, every pair of nodes (related or not, used or not), every capacity, every compaction after removals",
  "Tests swap and rekey a few nodes; adjacent siblings and parent/child pairs need their mutual references rewritten, which only some shapes exercise.",
  ["src/hierarchy.rs"], [("swap_nodes / rekey", "src/hierarchy.rs"), ("shrink_to", "src/hierarchy.rs")],
  ["Hierarchy::swap_nodes", "Hierarchy::rekey", "Hierarchy::shrink_to", "Hierarchy::ensure_capacity", "PartialEq for Hierarchy"])
P("P16", "Secondary maps are total maps with a default",
  "A secondary map (dense, bit vector or hash set) returns for each key the last value stored, or the map's own default; take, remove, rekey, swap and shrinking do exactly what they say, leaving the default behind. Disjoint mutable borrows are granted exactly for distinct keys, the iterator covers every non-default entry once, equality ignores spare capacity, and a requested capacity is reached.",
  ["inputs", "histories"], "every sequence of operations on any keys with any values and any default",
  "Tests use the type's own default and a few keys; non-standard defaults, keys beyond the length and aliasing keys are input-dependent.",
  ["src/unmanaged.rs", "src/secondary.rs"], [("dense map", "src/unmanaged.rs UnmanagedDenseMap"), ("bit vector and hash set maps", "src/secondary.rs")],
  ["SecondaryMap (all methods)", "UnmanagedDenseMap::get_disjoint_mut", "UnmanagedDenseMap::shrink_to", "PartialEq for UnmanagedDenseMap"])
P("P17", "Weights follow their nodes and ports through renaming callbacks",
  "When the callbacks of resizing or compaction are propagated to a secondary map as documented (rekey, or swap for moved ports), every surviving node and port keeps its weight, and with rekey new ports read the default. Node and port weights never interfere.",
  ["inputs", "histories"], "every graph, every resize or compaction, every assignment of weights",
  "The guarantee depends on the order in which the callbacks are issued when ports move over each other, which no test checks.",
  ["src/portgraph.rs", "src/multiportgraph.rs", "src/weights.rs", "src/unmanaged.rs"], [("order of rekey callbacks", "src/portgraph.rs set_num_ports / resize_ports_inplace / compact_ports"), ("rekey", "src/unmanaged.rs")],
  ["PortMut::set_num_ports", "PortMut::compact_nodes", "PortMut::compact_ports", "Weights", "UnmanagedDenseMap::rekey", "UnmanagedDenseMap::swap"])

P("P18", "FilteredGraph shows exactly the selected nodes and links",
  "A filtered view contains exactly the nodes its node filter accepts, with all their ports, and exactly the links both of whose ports pass the link filter and whose nodes are shown, each once. All counts, iterators, neighbour, connection and subport queries on shown nodes agree with that; filters compose, and the underlying graph is not touched.",
  ["inputs"], "every graph, every set of hidden nodes and every set of hidden ports, plain, multi and nested",
  "Tests hide one node or port of a fixed graph; each query filters separately and must apply the node filter of both ends and the link filter of both ports.",
  ["src/view/filter.rs"], [("link_filter applied by every link query", "src/view/filter.rs"), ("counts through filtered iterators", "src/view/filter.rs")],
  ["FilteredGraph (PortView, LinkView, MultiView)", "NodeFiltered"])

P("P10", "Inserting a graph adds an isomorphic copy and nothing else",
  "insert_graph adds one new node per node of the inserted graph or view, with the same numbers of ports, and returns the complete map; the links among the new nodes are exactly those of the inserted graph, port by port and with multiplicity, self-links included, and everything there before is unchanged. A plain graph refuses a multigraph with shared ports, keeping its own nodes and links.",
  ["inputs"], "every inserted graph, multigraph, filtered view, subgraph or region, into any graph with free slots and links",
  "Tests insert one small graph; multi-edges, self-links and hidden links of views each take a different path through the link copying.",
  ["src/view.rs"], [("link copying", "src/view.rs LinkMut::insert_graph")],
  ["LinkMut::insert_graph", "FilteredGraph", "Subgraph", "Region", "FlatRegion"])
P("P19", "A subgraph shows its nodes, their links, and its boundary",
  "A subgraph made from nodes shows exactly these, its boundary lists exactly their ports with links to other nodes, in order; one made from a boundary shows exactly the nodes connected to the boundary without crossing it (the whole graph for an empty one). All queries on it agree with the links among shown nodes, and in an acyclic graph it is convex exactly if no path leaves and re-enters it.",
  ["inputs"], "every graph or multigraph, every set of nodes in any order, every boundary of a node set",
  "Tests build one or two subgraphs; which nodes a boundary encloses depends on every link, and multigraph ports have several.",
  ["src/view/subgraph.rs", "src/boundary.rs"], [("collect_boundary_ports", "src/view/subgraph.rs"), ("internal_nodes", "src/boundary.rs")],
  ["Subgraph::new_subgraph", "Subgraph::with_nodes", "Subgraph::is_convex", "HasBoundary::port_boundary", "Subgraph (PortView, LinkView, MultiView)"])
P("P20", "Regions show exactly a node's descendants or children",
  "A region contains its root and all its descendants, a flat region the root's children and, if asked for, the root; both list them in hierarchy order and contain exactly the links among them. Every query on contained nodes agrees with that, whatever was asked before; clones and originals answer alike.",
  ["inputs", "histories"], "every forest over every graph or multigraph, every root, every sequence of queries (they fill a cache)",
  "Tests look at one hierarchy; the descendant cache makes answers depend on the order of earlier queries.",
  ["src/view/region.rs", "src/view/flat_region.rs"], [("is_descendant cache", "src/view/region.rs"), ("link filtering", "src/view/flat_region.rs")],
  ["Region::is_descendant", "Region (PortView, LinkView, MultiView)", "FlatRegion (PortView, LinkView, MultiView)"])
P("P21", "Copying a subgraph into its parent",
  "copy_in_parent adds one new node per node of the subgraph with the same ports, copies every inner link once between the copies and, in a multigraph, every boundary link to the same outer port; nothing else changes. In a plain graph it fails exactly if there is a boundary link, naming one, and then leaves nodes and links unchanged.",
  ["inputs"], "every graph or multigraph, every set of nodes, several hash orders",
  "Tests copy one subgraph; self-links, parallel links and the order of the node map decide whether a link is copied once.",
  ["src/view/subgraph.rs"], [("copy_in_parent", "src/view/subgraph.rs")],
  ["Subgraph::copy_in_parent"])
P("P33", "A region can be shared between threads",
  "When two threads share a region, each gets for every query the answer it would get alone, also on clones made while the other thread is querying; neither panics.",
  ["schedules", "inputs"], "every point at which one thread can be interrupted by the other, every forest, every query",
  "No test uses threads, and the cache behind the answers is locked, updated and cloned independently.",
  ["src/view/region.rs"], [("locked descendant cache", "src/view/region.rs is_descendant, Clone")],
  ["Region::is_descendant", "Region::clone"])
P("P34", "A graph used through a reference is the same graph",
  "Every query through a shared, mutable or nested reference to a graph, multigraph or view gives the answer of the graph itself, and every change through a mutable reference has the effect, the result and the reported renumbering of the change made directly.",
  ["inputs", "histories"], "every small graph, multigraph or view, every query and every change with any arguments",
  "Tests hardly use graphs through references; each of some seventy methods is forwarded separately, and several have the same signature.",
  ["src/view/refs.rs", "src/view.rs"], [("forwarding of the view and change traits", "src/view/refs.rs")],
  ["PortView for &G", "PortView for &mut G", "LinkView for &G", "LinkView for &mut G", "MultiView for &G", "MultiView for &mut G", "PortMut for &mut G", "LinkMut for &mut G", "MultiMut for &mut G"])
P("P22", "Topological sort returns each accessible node once, after all its predecessors",
  "A topological sort returns exactly the source nodes and every node all of whose links, against the direction, come from returned nodes, each once and after those; ports remain exactly if something was not returned because of a cycle. Its size hint always bounds what is left. Sources added later are returned too, and filtered nodes, links through filtered ports and what is only accessible by them are left out.",
  ["inputs", "histories"], "every graph or multigraph (cyclic, parallel, self-links), every source set, both directions, every filter, sources added at any moment",
  "Tests sort a handful of acyclic graphs; the visited-port bookkeeping matters with multi-links, filters, cycles and late sources.",
  ["src/algorithms/toposort.rs"], [("visited ports and ready nodes", "src/algorithms/toposort.rs TopoSort")],
  ["toposort", "toposort_filtered", "TopoSort::next/size_hint", "TopoSort::add_sources", "TopoSort::ports_remaining"])
P("P23", "Post-order traversal returns every accessible node once, after its subtree",
  "A post-order traversal returns exactly the nodes accessible from the sources in the given direction, each once, children in port order before the node they were found from; filtered nodes and links through filtered ports are not followed. Its size hint always bounds what is left.",
  ["inputs"], "every graph (cyclic, parallel, self-links), every source list, both directions, every filter",
  "Tests traverse a few trees; revisits, several sources and cycles interact with the explicit stack.",
  ["src/algorithms/post_order.rs"], [("explicit stack", "src/algorithms/post_order.rs PostOrder")],
  ["postorder", "postorder_filtered", "PostOrder::next/size_hint"])
P("P24", "The dominator tree gives exactly the immediate dominators",
  "For every entry and direction, a node's immediate dominator is the node that every path from the entry to it passes and that all its other strict dominators lie before; the entry, nodes not accessible from it, and unknown nodes have none. Filtered nodes, and links through filtered ports, do not count.",
  ["inputs"], "every directed graph (cyclic, unreachable parts), every entry, both directions, every filter",
  "Tests build a couple of graphs; the iterative intersection depends on the traversal order of loops and joins.",
  ["src/algorithms/dominators.rs"], [("iterative dominators", "src/algorithms/dominators.rs DominatorTree::new")],
  ["dominators", "dominators_filtered", "DominatorTree::root", "DominatorTree::immediate_dominator"])
P("P25", "Lowest common ancestors in the hierarchy",
  "For every two nodes of a graph or view with a hierarchy, the lowest common ancestor is the deepest node of the hierarchy that is an ancestor of (or is) both, and none exists exactly if their roots differ; ancestry and roots agree with the parent relation.",
  ["inputs"], "every forest, every pair of nodes, of a graph, filtered graph, subgraph or region",
  "Tests query one small tree; the jump tables only matter at depths and shapes beyond it.",
  ["src/algorithms/lca.rs"], [("binary lifting tables", "src/algorithms/lca.rs LCA")],
  ["lca", "LCA::lca", "LCA::is_ancestor", "LCA::root"])
P("P26", "Convexity by topological order",
  "In an acyclic graph or view, the topological convexity checker says for every node set whether no path leaves it and re-enters it and, given inputs and outputs, whether no link runs from one of these outputs to one of these inputs.",
  ["inputs"], "every acyclic graph, multigraph or filtered view, every node set, every choice of inputs and outputs",
  "Tests ask about a dozen sets of one graph; the sweep over an interval of the order fails only for particular shapes and orders.",
  ["src/algorithms/convex/topo_convex_checker.rs"], [("ordered sweep", "src/algorithms/convex/topo_convex_checker.rs is_node_convex")],
  ["TopoConvexChecker::is_node_convex", "ConvexChecker::is_convex", "CreateConvexChecker"])
P("P27", "Convexity by line partition",
  "The line convexity checker divides the links of an acyclic graph into lines on which positions increase, each link being one step of one line. A node set has intervals exactly if it is contiguous on every line, and these list its nodes; extending by a node succeeds exactly if the larger set has them, and otherwise changes nothing. Its convexity answers are right for every set, inputs and outputs.",
  ["inputs"], "every acyclic graph, multigraph or filtered view, every node set and extension, lines with gaps, every choice of inputs and outputs",
  "Tests look at small graphs; the interpolating search, shared lines at multi-ports and uneven positions need larger variety.",
  ["src/algorithms/convex/line_convex_checker.rs"], [("line construction", "src/algorithms/convex/line_convex_checker.rs extend_line_ends_frontier"), ("interval queries", "src/algorithms/convex/line_convex_checker.rs get_intervals_from_nodes, find_index")],
  ["LineConvexChecker::is_node_convex", "LineConvexChecker::get_intervals_from_nodes", "LineConvexChecker::get_intervals_from_boundary_ports", "LineConvexChecker::try_extend_intervals", "LineConvexChecker::nodes_in_intervals", "LineConvexChecker::lines_at_port", "ConvexChecker::is_convex"])
P("P28", "A dynamic convexity checker follows every change of its graph",
  "After any history of changes through it, the dynamic convexity checker shows the graph that the same history gives without it, and its convexity answers are right for every node set of the graph as it is then. A link is refused as a cycle (by a panic) exactly if it would close one.",
  ["histories", "inputs"], "every history of links, unlinks, additions, removals, swaps, compactions, resizes and clears, every node set after each",
  "Tests change the order once or twice; the incremental reordering goes wrong only after particular sequences of links.",
  ["src/algorithms/dynamic.rs"], [("Pearce-Kelly reordering", "src/algorithms/dynamic.rs update_order"), ("bounded path search", "src/algorithms/dynamic.rs would_create_cycle, is_convex")],
  ["DynamicTopoConvexChecker (PortView, LinkView, PortMut, LinkMut)", "DynamicTopoConvexChecker::is_convex"])
P("P29", "A boundary keeps its ports in order, and its port ordering is reachability",
  "A boundary lists the given input and output ports in the given order and finds each by position and back. Its port ordering relates an input to an output exactly if a path of links inside the subgraph leads from one to the other; one ordering is stronger than another exactly if it relates at least the same pairs, and the missing pairs are reported exactly.",
  ["inputs"], "every list of ports, every acyclic graph or multigraph, every node set with its boundary in any order, every pair of orderings",
  "Tests order the boundary of one small graph; which links count as inside depends on how node set, boundary and links combine.",
  ["src/boundary.rs"], [("boundary construction", "src/boundary.rs Boundary::from_ports/new"), ("reachability over a topological order", "src/boundary.rs Boundary::port_ordering"), ("comparison", "src/boundary.rs PortOrdering")],
  ["Boundary", "Boundary::port_ordering", "PortOrdering::is_stronger_than", "PortOrdering::missing_pairs"])
P("P30", "The petgraph traits present the same graph",
  "Seen through the petgraph traits, a graph, multigraph or view has exactly its nodes and its links as directed edges, each once, with the same identifiers everywhere; neighbours, bounds, adjacency and visit maps agree with it, so that petgraph's algorithms give the right answer.",
  ["inputs"], "every small graph or multigraph with nodes removed, every filtered graph, subgraph, region or flat region of it",
  "Tests only compile most of the trait implementations; direction of edges, index bounds after removals and repeated visits are not exercised.",
  ["src/view/petgraph.rs"], [("trait implementations", "src/view/petgraph.rs macros")],
  ["petgraph::visit::* on PortGraph, MultiPortGraph, FilteredGraph, Subgraph, Region, FlatRegion"])
P("P31", "Reading back what was serialised gives the same value",
  "Serialising a graph, multigraph, hierarchy, secondary map, weights, index, offset or subport and reading it back gives an equal value that behaves the same under every later operation, freed slots included. A number too large for its index type is refused with an error.",
  ["inputs", "histories"], "every index value and width, every graph, multigraph or hierarchy reached by a history with removals, every map content; MessagePack with and without field names, JSON",
  "Tests round-trip a few fixed graphs; free lists, copy nodes, absent values and width limits need more.",
  ["src/index.rs", "src/portgraph.rs", "src/multiportgraph.rs", "src/hierarchy.rs", "src/unmanaged.rs", "src/weights.rs"], [("index encodings", "src/index.rs Serialize/Deserialize"), ("untagged and renamed entries", "src/portgraph.rs NodeEntry, PortEntry")],
  ["Serialize and Deserialize of PortGraph, MultiPortGraph, Hierarchy, UnmanagedDenseMap, Weights, NodeIndex, PortIndex, PortOffset, SubportIndex"])
P("P32", "Drawings show exactly the graph",
  "The Graphviz text has one table per shown node listing its shown ports, all of whose rows span the same number of columns, and one edge per link between shown nodes, from its output to its input; with a hierarchy, exactly the parent and child pairs as well. The Mermaid text shows each node once, inside the regions of its shown ancestors, and each link once, inside no region that lacks one of its ends. Hidden nodes have no edges. Styles and labels appear on what they were given for; in Mermaid, labels are quoted so that they can be read back.",
  ["inputs"], "every small graph, multigraph or view, every forest, every set of hidden nodes and ports, every short label with special characters",
  "Snapshot tests pin the text of five fixed drawings; views, hidden nodes and edges between regions combine in more ways.",
  ["src/render.rs", "src/render/dot.rs", "src/render/mermaid.rs"], [("Graphviz tables and edges", "src/render/dot.rs DotFormatter"), ("Mermaid regions and delayed edges", "src/render/mermaid.rs explore_forest")],
  ["DotFormat::dot_format", "DotFormatter::finish", "MermaidFormat::mermaid_format", "MermaidFormatter::finish", "NodeStyle", "PortStyle", "EdgeStyle"])
