import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=obs or [],hook_needed=None)))
W="src/wins/timeset.rs"; I="src/wins/timeinterval.rs"; V="src/wins/timevalue.rs"
G=["src/graph/mod.rs","src/graph/propagation.rs","src/graph/storage.rs","src/graph/constraints.rs"]
S="src/graph/scheduler.rs"
p("C01","Time sets are always in canonical form",
 "Whatever sequence of public operations produced it (construction, collecting, union, intersection, complement, exclusion, truncation, translation, scaling, negation), a time set is held as non-empty parts in chronological order, any two neighbours separated by at least one absent tick. Consequently two sets compare equal exactly when they contain the same instants. Operands are built from finite time points and intervals, and results stay inside the representable range.",
 ["inputs","histories"],"every reachable time set, over every chain of operations and every choice of bounds, finite or unbounded",
 "the tests build about ten sets, most with one part; canonical form is an invariant over every chain of operations, and adjacency (gap of exactly 0 or 1 tick) and unbounded ends are where it breaks",
 [W,"src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/ops/scaling.rs","src/ops/transl.rs"],
 [("merge of touching parts",W+" FromIterator; src/iter/union.rs IterUnion; src/ops/scaling.rs check_joined_inners")],
 [("parts","ordered list of intervals",W+" TimeSet.0")],["iterating a set","==","is_empty","convex_count"])
p("C02","Union contains exactly the instants of either operand",
 "For any two time windows (points, intervals, ranges, sets; dates or durations) their union contains exactly the instants that belong to at least one of them. This holds for the operator, its in-place form and the lazy iterator form alike, whatever the operand kinds and ownership.",
 ["inputs"],"all pairs of windows of every kind, with any number of parts, any interleaving, adjacency or unbounded end",
 "the tests union two convex windows at most; interleavings of several parts drive the merge through all of its states",
 ["src/ops/union.rs","src/iter/union.rs","src/wins/timeset.rs"],
 [("two-way merge state machine","src/iter/union.rs IterUnion::next"),("pairwise interval union","src/ops/union.rs")],obs=["| and |= results",".union(..) items"])
p("C03","Intersection contains exactly the common instants",
 "For any two time windows their intersection contains exactly the instants that belong to both, and is empty (and says so) when they share none, including when they merely touch. This holds for the operator, its in-place form and the lazy iterator form alike, whatever the operand kinds and ownership.",
 ["inputs"],"all pairs of windows of every kind, including disjoint, adjacent, nested, empty and unbounded ones",
 "the intersection unit test has an empty body; the quantifier is over all pairs of windows",
 ["src/ops/intersect.rs","src/iter/intersect.rs","src/wins/timeinterval.rs"],
 [("two-way sweep state machine","src/iter/intersect.rs IterIntersection::next"),("bound-wise max/min","src/ops/intersect.rs")],obs=["& and &= results",".intersection(..) items"])
p("C04","Complement and exclusion are exact",
 "The complement of a time window contains exactly the instants the window does not contain, and the exclusion of B from A contains exactly the instants of A that are not in B. This holds for points, intervals and sets, by operator and by lazy iterator, and complementing twice gives back the original window.",
 ["inputs"],"all windows of every kind, including empty, full, half-bounded and many-part ones",
 "the complementary test has an empty body and one other test complements three windows; every shape of first and last part matters",
 ["src/ops/compl.rs","src/iter/compl.rs","src/iter/excl.rs"],
 [("gap enumeration","src/iter/compl.rs IterComplementary::next; src/ops/compl.rs")],obs=["! results",".complementary() and .exclusion(..) items"])
p("C05","Lazy window iterators agree with eager evaluation",
 "A chain of lazy window iterators (union, intersection, complement, exclusion, translation, scaling) of any depth yields, one part per step, exactly the parts of the eagerly computed window in chronological order, and after ending it keeps returning nothing. At every step its size hint brackets the number of parts still to come.",
 ["inputs","programs"],"all expression trees over the lazy iterators and all operand windows, at every step of the iteration",
 "no test uses the iterator traits directly; the contract quantifies over compositions and over every intermediate state of each iterator",
 ["src/iter/mod.rs","src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs","src/iter/scaling.rs"],
 [("iterator state machines","src/iter/*.rs next and size_hint")],[("state/tmp","pending operand and which side is awaited","src/iter/union.rs, src/iter/intersect.rs")],["next()","size_hint()"])
p("C06","Truncation cuts exactly and reports change truthfully",
 "Truncating a window before (after) a finite date keeps exactly its instants that are not earlier (not later) than that date. The call returns true if and only if the window changed.",
 ["inputs"],"all intervals and sets and all finite cut points, in the middle, at the edge, in a gap and outside",
 "no test calls truncation; behaviour depends on where the cut falls relative to every part",
 [I,W],[("positional cut",W+" truncate_before/truncate_after; "+I+" truncate_before/truncate_after")],obs=["truncate_before, truncate_after: result and window"])
p("C07","Containment, overlap and equality match set semantics",
 "One window contains another exactly when every instant of the second belongs to the first (the empty window is contained in any window), two windows overlap exactly when their intersection is non-empty, and they are equal exactly when they have the same instants. This holds for every combination of points, ranges, intervals and sets; equal windows hash equally.",
 ["inputs"],"all pairs of windows of every kind, including empty and full ones",
 "one test asks four containment questions about one set",
 ["src/relns/contain.rs","src/relns/overlap.rs","src/relns/ordering.rs"],
 [("bound comparisons and first-candidate search","src/relns/*.rs")],obs=["contains","overlaps","=="])
p("C08","Shape queries tell the truth about the window",
 "Emptiness, singleton, full, convex, bounded (below, above, both), number of convex parts, lower and upper bound, convex envelope and duration reported by a window agree with the instants it contains. In particular an empty window is reported neither bounded nor full, and a full window is exactly one containing every instant.",
 ["inputs"],"all windows of every kind (points, ranges, intervals, sets), including empty and unbounded ones",
 "no test asks these questions; the empty window is the case where they disagree",
 ["src/wins/mod.rs",I,W,"src/ops/range.rs"],[("bound inspection","src/wins/mod.rs TimeBounds/TimeWindow; "+I+"; "+W)],obs=["is_empty, is_singleton, is_all, is_convex, is_bounded, is_low_bounded, is_up_bounded, convex_count, lower_bound, upper_bound, convex_envelope, duration"])
p("C09","Precedence between windows is a sound partial order",
 "For non-empty windows, A < B holds exactly when every instant of A precedes every instant of B, A > B exactly when B < A, and <=, >= add equality only. The partial comparison answers less, greater, equal or nothing consistently with these relations.",
 ["inputs"],"all pairs of non-empty windows (interval or set on the left, any window on the right)",
 "no test compares windows by precedence",
 ["src/relns/ordering.rs"],[("bound comparison","src/relns/ordering.rs timepartialcmp")],obs=["<, <=, >, >=, partial_cmp"])
p("C10","Every way of building a window denotes the stated instants",
 "Building a window from bounds, a range expression (exclusive end excluded), a pair, a single finite date, a centre and radius, an enlargement, or by collecting any list of intervals or sets in any order (empty ones included) yields exactly the instants described. A lower bound above the upper one, or an infinite single date, yields the empty window.",
 ["inputs"],"all bounds (finite and infinite), all range forms, all finite lists of intervals in any order",
 "tests build a handful of well-ordered windows; the quantifier covers unsorted, overlapping and empty inputs and infinite bounds",
 [I,W,"src/ops/range.rs"],[("normalising constructors",I+" new/singleton/after/before/centered/enlarge; "+W+" FromIterator/From; src/ops/range.rs From")],obs=["constructed windows"])
p("C11","Translation is the exact Minkowski sum",
 "Adding (subtracting) a duration, an interval of durations or a set of durations to a date, an interval or a set yields exactly the set of all sums (differences) of one element of each operand, unbounded operands included; an empty operand gives an empty result. Owned, in-place, reversed and lazy forms agree, and the difference of two date windows is the window of all their distances.",
 ["inputs"],"all operand windows and durations whose finite sums are representable",
 "no test translates a window by anything",
 ["src/ops/transl.rs","src/iter/transl.rs"],[("bound-wise sums then union","src/ops/transl.rs; src/iter/transl.rs")],obs=["+, -, +=, -=, translation(..)"])
p("C12","Scaling windows by a factor is exact and keeps them sets",
 "Multiplying a window of durations by an integer maps each of its parts to the interval between its scaled bounds (a negative factor reverses, zero maps any non-empty window to {0}), and dividing by a non-zero integer yields exactly the quotients rounded towards zero; unbounded sides stay unbounded and the empty window stays empty. Multiplying or dividing by a floating factor does the same when all products are exactly representable. Owned, in-place, reversed and lazy forms agree for every numeric type.",
 ["inputs"],"all duration windows, all integer types and values, exactly representable floating factors",
 "no test scales a window",
 ["src/ops/scaling.rs","src/iter/scaling.rs"],[("bound-wise scaling and re-joining","src/ops/scaling.rs timespanscalingint, timespansscaleint, timespansscalefloat, check_joined_inners")],obs=["*, /, *=, /=, scaling(..)"])
p("C13","Time point arithmetic saturates to signed infinity",
 "Adding, subtracting, negating, summing and stepping (just after / just before) durations and dates gives the exact result whenever it is representable and the infinity of the right sign otherwise; infinities absorb finite operands and adding opposite infinities is refused. No operation ever produces a value outside the range from minus to plus infinity.",
 ["inputs"],"all pairs of time points over the whole 64-bit range, including both infinities and their neighbours",
 "tests use small values; wrap-around only shows next to the ends of the 64-bit range",
 [V,"src/wins/timestamp.rs"],[("saturating addition with infinity cases",V+" Add, from_ticks, just_after, just_before")],obs=["+, -, unary -, +=, -=, sum, just_after, just_before, from_ticks"])
p("C14","Scaling a duration is exact or saturates with the right sign",
 "Multiplying a duration by an integer of any type gives the exact product if representable and otherwise the infinity with the sign of the product; dividing by a non-zero integer gives the quotient rounded towards zero. An infinite duration times or over a non-zero factor stays infinite with the sign of the product, and times zero is zero. Scaling by a floating factor likewise gives the exact result when the duration and the result are exactly representable in that floating type, and the infinity of the right sign when the result is clearly out of range.",
 ["inputs"],"all durations and all values of every integer type (8 to 128 bits), exactly representable floating factors, both operand orders and in-place forms",
 "no test scales a duration; the type-specific code paths differ for factors beyond 64 bits",
 ["src/ops/scaling.rs"],[("saturating multiplication per type group","src/ops/scaling.rs timevalscaling*")],obs=["*, /, *=, /= on durations"])
p("C15","Rounding to a period gives the nearest multiple on the stated side",
 "For a finite value and a positive period, rounding down gives the greatest multiple of the period not above the value and rounding up gives the least multiple not below it, for dates and durations, negative values included, whenever that multiple is representable.",
 ["inputs"],"all finite values and positive periods",
 "tests try eleven value/period pairs; the sign and the residue modulo the period select the case",
 [V,"src/wins/timestamp.rs"],[("truncating division corrected by sign",V+" floor, ceil")],obs=["floor","ceil"])
p("C16","Unit conversions are exact, truncating and saturating",
 "A duration built from an integer number of any unit (years to nanoseconds and ticks, from any integer type) is the exact tick count rounded towards zero, or the infinity of the right sign when out of range. Truncating a finite duration to a unit gives the multiple of that unit next to it towards zero. The whole seconds and sub-second readings of a finite duration recompose it to within one nanosecond, with sub-second parts in range.",
 ["inputs"],"all integers of all types for every unit; all finite durations",
 "tests check six positive conversions",
 [V,"src/wins/convert.rs"],[("shift and scale with range check",V+" from_secs/from_fract"),("truncation by floor/ceil","src/wins/convert.rs")],obs=["from_years..from_nanos, years()..ticks(), as_secs, subsec_*"])
p("C17","Calendar and standard duration conversions keep the time",
 "Converting a finite duration or date to the standard or calendar library type and back, or from that type, changes it by less than two nanoseconds and never reorders values. External durations out of range become the infinity of the same sign. The date read from the clock of the machine is the time of that clock, and the time elapsed since a date is its distance from there.",
 ["inputs"],"all finite durations and dates in the supported range; all external durations",
 "no test converts to or from external types; range limits and negative values matter",
 [V,"src/wins/timestamp.rs"],[("tick/nanosecond scaling",V+" From impls; src/wins/timestamp.rs From impls")],obs=["From/Into with external durations and datetimes, to_datetime, to_duration"])
p("C18","Periodic sequences enumerate the arithmetic progression",
 "A forward (backward) sequence from a date yields that date, then each date one period later (earlier), until the representable range ends and then nothing; the period-aligned variants start from the date rounded up to a multiple of the period. Jumping to the n-th element, the last element, the count and the size hint agree with stepping one by one.",
 ["inputs","histories"],"all start dates whose predecessor step is representable, all positive periods, any interleaving of stepping and jumping",
 "no test uses sequences",
 ["src/seq/forward.rs","src/seq/backward.rs","src/seq/mod.rs"],[("last-emitted cursor","src/seq/forward.rs, src/seq/backward.rs")],[("t","last emitted date","src/seq/mod.rs")],["next, nth, last, count, size_hint"])
p("C19","The constraint graph always holds the minimal network",
 "After any history of accepted operations, the interval the graph reports between two instants is exactly the tightest one implied by all constraints accepted so far: it contains every distance realised by some solution and nothing else. This holds however the instants were introduced (declared first, or created by the constraint itself) and in whatever order the constraints came.",
 ["inputs","histories"],"all histories of graph operations over any number of instants, with bounded, half-bounded and equality constraints, path sums representable",
 "tests add three constraints to a pre-sized graph; minimality quantifies over all histories and all pairs of instants",
 G,[("incremental path consistency","src/graph/propagation.rs propagate_lower_bound"),("global path consistency","src/graph/propagation.rs global_propagation")],
 [("data","matrix of implied lower bounds","src/graph/mod.rs TimeGraph")],["timespan(i,j)","constraint(i,j)"])
p("C20","Inconsistency is detected exactly and leaves the promised state",
 "An operation on the constraint graph is refused exactly when no assignment of dates satisfies the already accepted constraints together with the new ones. A refusal announced as recovered leaves the graph exactly as it was, and a refusal announced as fatal leaves an empty graph in which no former constraint ever reappears.",
 ["inputs","histories"],"all histories of graph operations, including empty and reflexive constraints, followed by any further use of the graph",
 "no test makes the graph inconsistent; use after a refusal is a longer history still",
 G,[("bound check before propagation","src/graph/propagation.rs propagate"),("positive cycle detection","src/graph/propagation.rs global_propagation")],obs=["result of propagate/extend/merge","timespan after refusal and after regrowth"])
p("C21","Graph results report change truthfully",
 "When an operation on the constraint graph succeeds and answers unchanged, no constraint between any two instants (nor the number of instants) has changed; when adding one constraint or merging another graph answers propagated, something has. A constraint already implied by the graph is always answered unchanged when added alone.",
 ["inputs","histories"],"all histories of constraint additions, single, bulk and merge",
 "one test checks one unchanged answer",
 G,[("implied-bound test","src/graph/propagation.rs propagate, merge, extend")],obs=["Ok(..) value of propagate/extend/merge against timespans before and after"])
p("C22","Bulk addition and merge equal one-by-one addition",
 "Adding a collection of constraints at once, merging another graph, or collecting constraints into a graph gives the same graph as adding the same constraints one by one in any order, and fails exactly when that sequence would. Feeding a graph's own listed constraints into a fresh graph reproduces it.",
 ["inputs","histories"],"all consistent and inconsistent collections, any order, any pair of graph sizes",
 "one test extends one graph from another without comparing the result",
 G,[("global propagation after element-wise maximum","src/graph/propagation.rs extend, merge")],obs=["timespan after extend/merge/collect"])
p("C23","Resizing keeps exactly the constraints of surviving instants",
 "Growing a graph adds instants free of any constraint and changes nothing else; shrinking forgets the last instants but keeps everything implied between the remaining ones; shrinking to fit removes only trailing unconstrained instants; resetting frees all instants and keeps their number. Instants re-created after being dropped are unconstrained.",
 ["histories"],"all histories mixing resizing, reset, capacity trimming and constraint additions",
 "tests resize once, upward, on an unconstrained graph",
 ["src/graph/storage.rs"],[("shell-ordered matrix storage","src/graph/storage.rs resize, shrink_to_fit, reset, lower")],[("data","matrix stored shell by shell","src/graph/mod.rs")],["size","timespan"])
p("C24","Graph listings and queries agree with the network",
 "The listing of all constraints gives every constrained pair of instants exactly once, and the listings from and to an instant give every other instant constrained with it exactly once, each with the interval the graph reports (reversed pairs give the opposite interval). Ordering, distinctness and equivalence answers agree with those intervals, out-of-range instants are unconstrained, and size hints bracket the listing.",
 ["inputs","histories"],"all reachable graphs, all pairs of instants including out-of-range ones, at every step of each listing",
 "listings are only used once, unchecked, in a test",
 ["src/graph/constraints.rs","src/graph/storage.rs","src/graph/mod.rs"],[("pair enumeration","src/graph/constraints.rs TimeConstraintIter, TimeConstraintFromIter")],obs=["iter, constraints_from, constraints_to, constraint, timespan, instant_cmp, are_distinct_instants, equiv"])
p("C25","The agenda keeps every consistent date and no incompatible one",
 "No date that occurs in some complete assignment satisfying the constraint graph and every accepted retain, remove, deadline and startline request is ever dropped from the agenda. When every requested window is an interval, the dates kept for an instant are exactly those; with disjunctive windows they are the largest sets in which each date of one instant is compatible with some kept date of every other instant.",
 ["inputs","histories"],"all graphs and all histories of scheduler requests with convex and disjunctive windows",
 "one test sets one start line and one deadline without looking at the dates",
 [S]+G,[("propagation of a changed slot along the constraints",S+" propagate_scheduling")],[("schedule","remaining dates of each instant",S+" TimeScheduler")],["scheduling(i)","schedule()"])
p("C26","Scheduler requests are all-or-nothing and honestly reported",
 "A retain or remove request is refused exactly when no complete assignment would remain, and a refused request leaves every instant's dates untouched. An accepted request never leaves an instant without dates, and answers unchanged exactly when no instant's dates changed.",
 ["inputs","histories"],"all graphs and all histories of scheduler requests, including empty windows and disjunctive windows",
 "no test issues a refused request",
 [S],[("containment and overlap test before narrowing",S+" retain")],obs=["result of retain/remove against schedule before and after"])
p("C27","Deadlines and start lines bound every instant",
 "A deadline (start line) request is refused, changing nothing, exactly when some instant cannot take place by (after) that date; otherwise the agenda becomes what retaining that side of the date on every instant gives. It answers unchanged exactly when nothing changed, and the reported latest beginning and earliest ending are the minimum of the upper and the maximum of the lower bounds.",
 ["inputs","histories"],"all graphs, all prior request histories, all finite dates",
 "one test sets each once and looks only at the answer",
 [S],[("feasibility pre-check then per-instant narrowing",S+" set_deadline, set_startline")],obs=["set_deadline, set_startline, latest_beginning, earliest_ending"])
p("C28","Text renderings denote the value",
 "The debugging text of a window lists exactly its parts, in order, with open brackets and infinity signs exactly on unbounded sides, and the empty window, singletons and the full window have their own notation. The human-readable text of a finite duration is a sign and a list of decreasing units, each below the next larger unit, that adds up to the duration to within one nanosecond; that of a finite date is its calendar date, or its delay before the origin. Windows written with a chosen date format follow the same bracket rules.",
 ["inputs"],"all windows and all finite durations",
 "tests compare a dozen strings",
 ["src/wins/format.rs"],[("unit decomposition","src/wins/format.rs format_duration"),("bracket selection","src/wins/format.rs Debug/Display impls, format_timeslot")],obs=["Debug and Display text, format_timeset"])
p("C29","Serialised time data reads back equal",
 "With serialisation enabled, writing any duration, date, interval or set and reading it back gives an equal value with the same instants.",
 ["inputs"],"all values of the four serialisable kinds",
 "no test serialises anything",
 [V,"src/wins/timestamp.rs",I,W],[("derived serialisation","serde derives on the four types")],obs=["serialise then deserialise"])
p("C30","Texts of networks and agendas show what they hold",
 "The debugging text of a network is the whole matrix of greatest lower bounds between its instants, one line per instant. Its reading text has exactly one line for every constrained pair of instants, naming the two instants in the right direction with the tightest span between them, and the text of a single constraint names its origin, its end and its span. The text of an agenda has exactly one line per instant, in order, with that instant's slots.",
 ["inputs","histories"],"all networks, constraints and agendas",
 "no test compares a printed network or agenda",
 ["src/graph/storage.rs","src/graph/constraints.rs","src/graph/scheduler.rs"],[("printed network","src/graph/storage.rs Debug/Display for TimeGraph"),("printed constraint","src/graph/constraints.rs Debug/Display"),("printed agenda","src/graph/scheduler.rs Debug/Display/format_timeset")],obs=["Debug and Display text of TimeGraph, its constraints and TimeScheduler; TimeScheduler::format_timeset"])
p("C31","Lazy window iterators work on endless windows",
 "Lazy chains (union, intersection, complement, exclusion, translation by a duration) also work on windows with endlessly many parts, such as recurring slots: they read their sources in order and only as needed. To give its next part, an operator reads from each operand no more than the parts that begin up to just after the end of the part it gives, and a bounded lookahead (at most two parts more). So every part lying entirely before the point the operands are known up to is given, exactly and in order; and an intersection (exclusion) one operand of which has ended also ends, after reading no more of the other operand than what begins up to that end, and the same lookahead. Building a chain reads no more than the lookahead.",
 ["inputs","programs"],"all chains over finite and endless sources, at every step",
 "no test uses an endless source, and what is read from a source at each step depends on how the parts of both operands interleave",
 ["src/iter/mod.rs","src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs"],
 [("iterator state machines","src/iter/*.rs next")],[("state/tmp","pending operand and which side is awaited","src/iter/union.rs, src/iter/intersect.rs")],["next()","what is read from the sources of a chain"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P))
