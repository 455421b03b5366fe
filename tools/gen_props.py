#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], na=na, note=note))

VO = "trellis/src/vec_option.rs"; RT = "trellis/src/ramp_table.rs"; PQF = "trellis/src/priority_queue.rs"

p("C01", "An optional-element vector behaves like a vector of optional values",
  "After any sequence of operations, including ones cut short by a panic raised in a caller's clone, comparison, destructor or iterator, a vector of optional values answers every query (length, presence, lookup, iteration forwards and backwards, counts, mutation) exactly as an ordinary vector of optional values given the same operations. Out-of-range or unmet preconditions are refused by a panic that changes nothing. Two tasks working on different vectors, or reading one together, never influence each other.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "every sequence of public operations on every element type and size, every panic point in caller code, every schedule of tasks that own or share vectors",
  "The tests run a dozen fixed short sequences with integers; they never panic in a callback, never cross a 32/64-element word boundary in long histories and never share a vector.",
  [VO], [("presence bitmap kept in step with raw element storage", VO + " VecOption"), ("bulk edits: insert, remove, resize, compact, truncate", VO)],
  ["return values of every public operation", "iteration order and contents", "panics"],
  note="Every operation's result is compared with an executable Vec<Option<T>> model at once and in a full re-read at intervals.")
p("C02", "Every element put into a collection is dropped or handed out exactly once",
  "Every element given to a vector of optional values is, by the time the vector and everything taken out of it are gone, destroyed exactly once or handed back exactly once, and never read after that. This holds when a caller's clone, comparison, destructor or iterator panics half-way, and when an operation's result is abandoned; only elements of a deliberately forgotten iterator or of a destructor that itself panicked may be leaked, never destroyed twice.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "every sequence of operations, every callback at which the caller's code may panic, every partially consumed or forgotten iterator",
  "The tests use integers, for which double drops and leaks are invisible, and never panic inside a callback.",
  [VO], [("unsafe ownership transfer between raw storage and callers", VO), ("panic safety of clone, drop and fill", VO)],
  ["each element's destructor calls", "reads of dead or foreign elements", "allocator red zones and poisoned memory"],
  note="Elements carry identities in a ledger kept by the simulator; the allocator poisons, quarantines and red-zones memory.")
p("C03", "Abandoned, interrupted or forgotten drains leave a usable collection",
  "Taking values out through a draining iterator yields them in index order, each once, and leaves their places empty. If the iterator is dropped early, interrupted by a panic in the consumer, or forgotten, the collection is still well formed: what has been yielded is gone for good, no element is destroyed twice, and all later operations behave normally.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "every position at which an iteration stops, in every way it can stop, followed by every further operation",
  "The tests always run iterators to the end.",
  [VO], [("drain iterators", VO), ("consuming iterators", VO)],
  ["what the iterator yields", "contents of the collection afterwards", "element destructor calls"],
  note="Cursor state is interleaved with other tasks' work; the model tracks which places were passed.")
p("C04", "Copies, equality, order and hash of optional vectors agree",
  "A copy of a vector of optional values equals its original and stays independent of it. Equality, ordering and hash depend only on the current contents, not on the history that led to them: equal vectors hash alike and compare as equal, shorter vectors order before longer ones and equally long ones order lexicographically with an absent value before a present one, and are neither equal nor ordered where values that cannot be compared decide. A clone or comparison cut short by a panic leaves the operands intact and gives the right answer when repeated.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "every pair of contents reached by every pair of histories, every panic point in element clone/compare/hash, concurrent readers of shared vectors",
  "The tests compare a few literal vectors; none reaches equal contents through different histories, and none clones under a panic.",
  [VO], [("Clone, PartialEq, PartialOrd, Ord and Hash implementations", VO)],
  ["results of clone, ==, cmp, partial_cmp and hash"],
  note="Stale bits and stale storage left by earlier histories are the target.")
p("C05", "A multi-valued table keeps every key's values in order through any history",
  "A table from dense keys to runs of values gives back, for each key and in total, exactly the values added for it, in order, whatever mixture of insertions, bulk insertions, clears, in-place edits and traversals preceded. An insertion cut short by a panic in the caller's iterator or clone keeps the values it had already accepted, adds no key, and the table stays consistent and usable; an interrupted clear leaves an empty table.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "every sequence of operations, every panic point in caller code, every combination of pending values and keys",
  "The tests build small tables in one straight line and never continue after an interruption.",
  [RT], [("index table of run ends kept in step with the value array", RT + " RampTable"), ("pending (not yet owned) values", RT)],
  ["keys, values per key, iteration in every form, totals", "panics"],
  note="Compared with a Vec<Vec<T>> plus pending-values model after every operation.")
p("C06", "Built tables and graphs do not depend on hashing, threads or key interleaving",
  "A multi-valued table or a graph put together from key-value pairs or paths depends only on each key's own sequence of additions: not on how additions for different keys interleave, on the process's hash seed, nor on what other tasks do meanwhile. Every addition appears exactly once.",
  ["inputs", "schedules", "configurations"],
  "every interleaving of additions across keys, every hash seed, every schedule of concurrent builders",
  "A test sees one hash seed per process and one insertion order, so an iteration-order dependence passes or fails by luck.",
  [RT, "trellis/src/testing.rs"], [("sorting pairs by key before building runs", RT), ("graph building from an adjacency map", "trellis/src/testing.rs")],
  ["contents of the built table or graph"],
  note="The process hash seed is a simulator input; the same additions are replayed under different seeds and interleavings.")
p("C07", "The priority queue always returns a greatest remaining element",
  "Over any history of insertions, removals and clears, removing returns an element not less than any other still held, each inserted element comes out at most once, and the queue runs empty exactly when everything inserted has come out. If a caller's comparison panics, no element is lost or duplicated beyond the one in hand, and after the queue has been emptied it works normally. Printing a queue lists what it holds, no more and no less, and reports a sink that refuses.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "every sequence of insertions and removals with every pattern of ties, every comparison at which the caller may panic",
  "No test exercises the queue at all beyond compiling it.",
  [PQF], [("sift-up and sift-down on an implicit binary heap", PQF)],
  ["the sequence of removed elements", "element destructor calls", "panics"],
  note="Compared with a multiset model; order is not asserted between an interrupted comparison and the next empty state.")
TS="trellis/src/topo_sort.rs"; LA="trellis/src/layering.rs"; DJ="trellis/src/disjoint.rs"; FC="trellis/src/find_chains.rs"; SP="trellis/src/ortho/shortest_path.rs"; LB="trellis/src/lib.rs"; GR="trellis/src/graph.rs"; LX="dot_parser/src/lexer.rs"; EL="trellis/src/common/ellipse.rs"
p("C08", "Topological sort orders every edge, or reports a cycle iff there is one",
  "For every directed graph, topological sorting succeeds exactly when the graph has no cycle (an edge from a vertex to itself is one); on success it lists every vertex that has an edge exactly once and nothing else, with each edge's source before its target, and the reversed sort is the same with targets first. The answer does not change when logging, concurrent readers or an earlier interrupted attempt intervene, and the graph is left as it was.",
  ["inputs", "schedules", "fault_sequences"],
  "every graph (any size, labels, multi-edges, self-edges), every interleaving of readers sharing it, every panic or delay in the log sink",
  "Eight graphs of at most seven vertices, all labelled in increasing order, one thread, no logger.",
  [TS], [("depth-first traversal with an explicit stack and an in-progress set", TS)],
  ["the returned order or error"],
  note="Checked against the edge list itself and an independent Kahn-style acyclicity decision.")
p("C09", "Layer assignment is the longest distance to a sink, or a cycle is reported",
  "For every acyclic graph, each vertex is put in the layer equal to the number of edges on the longest path from it to a vertex without outgoing edges, so every edge goes to a strictly lower layer, and the number of layers is one more than the highest layer in use. For a graph with a cycle an error is reported instead.",
  ["inputs", "schedules", "fault_sequences"],
  "every graph, every interleaving of readers, every log-sink fault",
  "The one test prints layer maps of seven graphs and asserts nothing.",
  [LA, TS], [("longest-path layering over the reverse topological order", LA)],
  ["the returned layers and layer count, or error"],
  note="Checked against an independent longest-path recurrence computed by in-degree peeling.")
p("C10", "Disjoint subgraphs are exactly the connected components",
  "Splitting a graph into disjoint subgraphs groups two vertices together exactly when they are connected by edges taken in either direction; every vertex that has an edge appears in exactly one group, no group is empty, and vertices without edges are left out. The answer does not depend on the order in which edges are met.",
  ["inputs", "schedules", "fault_sequences"],
  "every graph, in particular every order in which partial components merge; every reader interleaving and log-sink fault",
  "The test runs four graphs with monotone labels and asserts nothing; no component is ever merged twice.",
  [DJ, RT, VO], [("alias table of provisional subgraphs with leader search", DJ), ("grouping into a table", DJ)],
  ["the returned groups"],
  note="Checked against an independent union of neighbourhoods by breadth-first search.")
p("C11", "Chain search finds every maximal chain once and nothing else",
  "For every graph, the reported chains are exactly the maximal paths whose inner vertices all have one incoming and one outgoing edge and no edge to themselves, each given once with its end vertices included and its vertices in path order.",
  ["inputs", "schedules", "fault_sequences"],
  "every graph, including multi-edges, self-edges, cycles hanging off a path and parallel chains",
  "The test runs three graphs and asserts nothing.",
  [FC], [("per-vertex packed degree classification", FC), ("walking from each non-chain vertex", FC)],
  ["the returned chains as a multiset"],
  note="Compared as a multiset with a reference computed from plain degree counts. A cycle consisting of inner vertices only has no end vertex and yields nothing.")
p("C12", "Shortest-path search returns a least-weight path and always ends",
  "For every graph with non-negative weights, given by a caller's edge callback, shortest-path search returns a path that really exists from the start to the goal, listed from the goal back, whose total weight is the least possible; it returns none exactly when the goal cannot be reached; and it ends even if cycles are reachable. The result's weight does not depend on the order, duplication or slowness with which the callback delivers edges, and a search cut short by a callback's panic gives the right answer when repeated.",
  ["inputs", "schedules", "fault_sequences"],
  "every weighted graph with arbitrary vertex labels, every delivery order, duplication, delay, re-entrance and panic of the edge callback",
  "The only test is empty.",
  [SP], [("best-first search with a binary heap of path entries", SP), ("reconstruction through predecessor links", SP)],
  ["the returned vertices", "termination"],
  note="Compared with a separate Dijkstra on the full edge list.")
p("C13", "Lazy depth-first traversal yields the preorder walk one step at a time",
  "Polling a depth-first traversal yields, step by step, every vertex reached along every path from the start in depth-first preorder, children in stored order, the start itself not included; once exhausted it stays exhausted. Any number of traversals over one graph may be interleaved, abandoned or resumed in any order without influencing each other, and on cyclic graphs every finite number of polls still answers.",
  ["inputs", "schedules", "histories"],
  "every graph and start, every interleaving of polls over many traversals and tasks, every abandonment point",
  "No test calls it.",
  [LB], [("explicit stack of edge iterators", LB + " traverse_depth_first_preorder")],
  ["the sequence of polled vertices"],
  note="Compared step by step with a reference stack walk over a private copy of the edges.")
p("C14", "The lexer turns any text into the right tokens and resumes after errors",
  "For every text, including one torn, corrupted, duplicated or reordered in transit, the lexer delivers exactly the tokens that are there, with the right values, never panics or stalls, and ends after at most one step per character. Malformed input is recorded as an error and later tokens are still delivered by asking again; lexers over the same or different texts, polled in any order, do not influence each other.",
  ["inputs", "fault_sequences", "schedules"],
  "every Unicode text and every corruption of it, every interleaving of polls of several lexers, every abandonment",
  "The tests lex about two dozen short well-formed snippets.",
  [LX], [("character-level scanner", LX), ("error list", LX)],
  ["tokens and their values", "number of recorded errors", "progress per poll"],
  note="Compared token by token with an independently written reference lexer; malformed forms are classified by the reference.")
p("C15", "Recorded lexing errors are written completely and with their true positions",
  "Writing out recorded errors produces one line per error, in the order they arose, each beginning with the line and column at which the error occurred in the text. If the output refuses or panics at any point, what was accepted is a prefix of the full report, the failure is reported to the caller, and writing again yields the same full report.",
  ["inputs", "fault_sequences", "schedules"],
  "every text, every point at which the output sink fails, panics or calls back into the library",
  "No test writes errors to anything.",
  [LX], [("line table and position lookup", LX), ("error formatting", LX)],
  ["text received by the sink", "result of the write"],
  note="Message wording is not asserted, positions and order are.")
p("C16", "Results depend on the input alone; nothing is printed",
  "Every analysis of a given graph or text returns the same result however often, from whatever task, in whatever interleaving with other analyses, log level, log-sink behaviour, clock, hash seed, environment variables or state of standard output it is run; no analysis writes to standard output or standard error, modifies its input, or leaves anything behind that changes a later one, even when it was cut short.",
  ["schedules", "configurations", "fault_sequences", "inputs"],
  "every interleaving of concurrent analyses of shared inputs, every environment setting and log-sink fault",
  "The tests run once, on one thread, with one logger setting, in one environment.",
  [LB, TS, LA, DJ, FC, SP, GR, LX], [("pure functions of shared references; no global state", LB), ("logging through the log facade only", DJ)],
  ["equality of repeated results", "bytes on standard output and error", "inputs afterwards"],
  note="Results are memoised by input across tasks and environments inside a run and compared.")
p("C17", "An elliptic wedge is drawn by one well-formed sequence of commands",
  "For every centre, positive semi-axes and pair of angles at most one turn apart, drawing an elliptic wedge sends the path receiver one well-formed sequence: a start at the centre, a straight segment to the ellipse at the start angle, segments with finite coordinates that follow the ellipse forwards exactly to the end angle, and a closing end. A receiver that fails at any command has seen only a prefix of that sequence; drawing again, from any task or from inside a receiver, repeats the whole sequence identically. A polyline receiver, given any commands, holds exactly the points of the path started last: each straight segment as the curve that repeats its ends, and after a closing end a straight segment back to where that path started.",
  ["inputs", "fault_sequences", "schedules"],
  "every ellipse and angle pair, every command at which the receiver fails or draws itself, every interleaving of tasks that draw",
  "The one test draws a single arc and prints it without asserting anything.",
  [EL], [("arc subdivision into Bezier segments", EL + " gen_elliptic_path"), ("angle normalisation", EL + " initEllipse"), ("receivers", EL + " PathTarget")],
  ["the command sequence received", "points of a polyline receiver"],
  note="End points are checked against the ellipse and the angles, the sweep against the expected one, and curves to stay within a thousandth of the semi-axes; exact control points and their number are not asserted.")
p("C18", "Graph views agree with the edge list",
  "For every graph, its edge listings, per-vertex edges, sources, sinks, degrees, referenced targets and transposition all describe the same edges: transposing reverses every edge exactly once with sources ascending per target, transposing twice restores each vertex's targets up to order, and counted degrees stop at their maximum and say so instead of wrapping. Concurrent readers of one graph all see the same.",
  ["inputs", "schedules"],
  "every graph including empty ones, multi-edges, self-edges and vertices with more edges than a degree counter can hold; every interleaving of readers",
  "The tests print two transpositions without asserting, and count one list of degrees.",
  [GR, LB], [("counting transposition", GR), ("saturating degree counts", LB)],
  ["results of every view"],
  note="Compared with the plain edge list used to build the graph.")
p("C19", "Dense shortest-path search finds least paths through the weight callback",
  "For every symmetric matrix of non-negative weights, given as a table or by a callback (zero meaning no edge), the predecessors returned lead from the target back to the root over existing edges with the least total weight, and do not reach the root if there is no path; with no target given this holds for every vertex at once. Only the lower triangle is ever asked for. A search cut short by the callback's panic, delayed, or run again from inside the callback gives the same right answer when repeated.",
  ["inputs", "fault_sequences", "schedules"],
  "every weight matrix and pair of vertices, every call at which the callback fails or searches itself, every interleaving of concurrent searches",
  "No test calls it.",
  ["trellis/src/pathplan/shortestpth.rs", "trellis/src/pathplan/array2.rs"], [("Dijkstra with negated priorities and a sentinel", "trellis/src/pathplan/shortestpth.rs shortestPathGeneric"), ("row-major matrix", "trellis/src/pathplan/array2.rs")],
  ["the predecessor vector", "the callback's arguments"],
  note="Judged by walking the predecessors and comparing the length with a fixpoint of edge relaxations; which of several least paths is returned is not asserted.")
PP = "trellis/src/pathplan/"
p("C20", "Obstacle maps show exactly what is in sight and route by the shortest way",
  "For every set of separate polygonal obstacles given clockwise (points and lines among them), the opened map records for every two corners their distance if nothing lies between them (even a corner touched on the way is in between) and zero otherwise, also when its corners are moved and its visibility is worked out again. What a point sees, whether two points see each other, and which convex obstacle a point is in agree with the map, the obstacles the points themselves are in being ignored. The route made from these answers leads from start to target over legs in sight and is as short as any such route; if there is none, it does not reach the start. Tasks that share a map never change it or each other's answers.",
  ["inputs", "schedules", "histories"],
  "every set of disjoint obstacles and every point not on an edge, every interleaving of tasks that share maps, every sequence of questions",
  "No test opens a map: opening one panicked for every input.",
  [PP + "visibility.rs", PP + "cvt.rs", PP + "shortestpth.rs", PP + "in_poly.rs"],
  [("visibility graph of all corners", PP + "visibility.rs compVis"), ("a point's visibility, ignoring its own obstacle", PP + "visibility.rs ptVis, directVis"), ("route as a shortest path over sight", PP + "shortestpth.rs makePath")],
  ["the visibility matrix", "ptVis, directVis, polyhit", "the predecessors makePath returns"],
  note="Judged by exact integer geometry and a fixpoint of edge relaxations; a segment that passes exactly through a corner or along an edge of another obstacle's inside is out of sight, as the code documents. Points exactly on an obstacle's edge are not asked about.")
p("C21", "The shortest path inside a polygon is inside it and shortest",
  "For every simple polygon, in either direction of turning and from any first corner, with no three different corners on one line (a corner may be given several times in a row, and the first one again at the end), and for any two points: a path is returned exactly if both points are in the polygon or on its edge, and otherwise the error names the source if it is outside and else the destination. The path starts and ends at the two points, bends only at corners, never leaves the polygon, and no other such path is shorter. A search cut short by a panic of the log sink, or run again from inside it or beside it in other tasks, gives that same path when repeated.",
  ["inputs", "schedules", "fault_sequences"],
  "every simple polygon without three different corners on a line and every pair of points, every log record at which the sink fails or plans a path itself, every interleaving of tasks",
  "No test calls it: it panicked for every input.",
  [PP + "shortest.rs"],
  [("ear-cutting triangulation", PP + "shortest.rs triangulate"), ("strip of triangles between the points", PP + "shortest.rs mark_tri_path"), ("funnel with a deque", PP + "shortest.rs finddqsplit, add2dq")],
  ["the polyline or error returned"],
  note="Judged by exact integer geometry against a shortest path over the polygon's visibility graph. The restriction to polygons without three corners on a line is the code's own assumption.")
p("C23", "A fitted spline joins the ends, keeps its directions and respects barriers",
  "For every polyline of two or more points, two end directions and set of barriers, the spline returned is a chain of cubic pieces that starts and ends at the polyline's ends and joins at points of the polyline in their order. It leaves and arrives in the directions given, has no kink where pieces join, and no piece crosses a barrier away from the ends of both, except a straight piece from one point of the polyline to the next, the last resort. What the output held before does not matter. A fit cut short by a panic of the log sink, or run again from inside it or beside it in other tasks, gives that same spline when repeated.",
  ["inputs", "schedules", "fault_sequences"],
  "every polyline, pair of directions and set of barriers, every log record at which the sink fails or fits a spline itself, every interleaving of tasks",
  "No test fits a spline.",
  [PP + "route.rs", PP + "solvers.rs"],
  [("least-squares fit with end directions", PP + "route.rs mkspline"), ("shortening tangents until the barriers are respected", PP + "route.rs splinefits"), ("splitting where the fit is worst", PP + "route.rs reallyroutespline"), ("cubic roots", PP + "solvers.rs solve3")],
  ["the control points returned"],
  note="Crossings are searched by sampling and bisection and count only when clearly away (0.1 units, a thousandth of the parameter) from the ends of barrier and piece; tangents shorter than 1e-5 have no direction. The control points themselves are not asserted.")
for id, title, st, files, why in [
 ("C22", "Triangulation", "Triangulating a simple polygon yields triangles that cover it without overlapping.", ["trellis/src/pathplan/triang.rs"], "Ptriangulate is a private function that nothing calls: no user can observe it, and there is no execution to simulate"),
 ("C24", "Polynomial root solvers", "The polynomial solvers return every real root within a tolerance.", ["trellis/src/pathplan/solvers.rs"], "pure numeric function; no nondeterminism of any kind"),
 ("C25", "Colour conversion", "Colour conversions map every representable colour into range and round-trip within rounding.", ["trellis/src/common/colxlate.rs", "trellis/src/common/color.rs"], "pure numeric conversion; no nondeterminism of any kind"),
 ("C26", "Box and point arithmetic", "Box overlap, containment and transformation helpers agree with their set-theoretic definitions.", ["trellis/src/common/geom.rs", "trellis/src/vec2.rs"], "pure arithmetic; no nondeterminism of any kind"),
 ("C27", "Proper graphs", "Making a layered graph proper replaces each edge spanning several layers by a chain of unit-span edges.", ["trellis/src/layering.rs"], "not implemented in this commit: every call ends in an unimplemented!() panic, so there is no behaviour to decide"),
]:
    p(id, title, st, ["inputs"], "every input", "Tests, where there are any, sample a few inputs.", files, [("the function itself", files[0])], ["its return value"], na=why)

claimed = set(a for a in os.environ.get("CLAIM", " ".join("C%02d" % i for i in range(1, 24) if i != 22)).split())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], state=q["state"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                         observe_at=q["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
checks, na = [], []
for q in P:
    if q["na"]:
        na.append(dict(property=q["id"], reason=q["na"]))
    elif q["id"] in claimed:
        checks.append(dict(property=q["id"], quick_cmd="./check.sh %s quick" % q["id"], thorough_cmd="./check.sh %s thorough" % q["id"],
            technique="deterministic simulation: seeded schedules and fault injection against a reference model",
            level="exploration",
            level_note=q["note"] + " Sampled: seeded runs of the real code in one process under the simulator's scheduler, allocator and environment; a clean batch is evidence, not proof. Trusts the reference model, the simulator and the compiler; std runs uninstrumented."))
    else:
        na.append(dict(property=q["id"], reason="no check yet"))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the seams are the library's own generics, closures, log facade and iterators, plus compiler-inserted preemption points (RUSTC_WRAPPER) and link-time interposition in the simulator binary. Replay: ./check.sh replay <file>."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
