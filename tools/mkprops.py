#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Regular bin axis: each value is counted in the bin whose interval contains it",
  "On a regularly binned axis with any number of bins, range and any choice of underflow, overflow, NaN and closed-edge options, every value (finite, infinite or NaN) is counted in exactly the bin whose displayed interval contains it, and is dropped exactly when no displayed bin contains it. The number of displayed bins equals the number of stored bins. Values within rounding error of an edge may fall on either side of that edge.",
  ["inputs", "configurations"], "every value in the extended reals and NaN, every numbins >= 0 (low == high when 0), low < high, all 16 flag combinations, arrays of every length",
  "The tests fill a few hand-picked values on a few axes; an off-by-one at an edge, a mishandled infinity or a flag combination that is never filled is not sampled.",
  ["histbook/calc/__init__.py", "histbook/axis.py"],
  [("bin kernels and their table", "histbook/calc/__init__.py: histbook_bin, library['histbook.bin*']"), ("axis to kernel", "histbook/axis.py: bin._goals, bin.totbins, bin.keys"), ("kernel dispatch", "histbook/calc/__init__.py: calculate")],
  observe=["Hist.fill then Hist._content / Hist.table against axis.keys()"])

prop("C02", "Split axis: each value is counted in the bin whose interval contains it",
  "On an axis with arbitrary distinct edges and any choice of underflow, overflow, NaN and closed-edge options, every value (finite, infinite or NaN) is counted in exactly the bin whose displayed interval contains it, and is dropped exactly when no displayed bin contains it. The number of displayed bins equals the number of stored bins.",
  ["inputs", "configurations"], "every value in the extended reals and NaN, every non-empty set of finite edges, all 16 flag combinations, arrays of every length",
  "Tests use one set of edges and a few flags; a wrong side at one edge under one flag combination is not sampled.",
  ["histbook/calc/__init__.py", "histbook/axis.py"],
  [("split kernels and their table", "histbook/calc/__init__.py: histbook_split, library['histbook.split*']"), ("axis to kernel", "histbook/axis.py: split.__init__, split._goals, split.totbins, split.keys")],
  observe=["Hist.fill then Hist._content / Hist.table against axis.keys()"])

prop("C03", "Integer and cut axes: each value is counted in its own bin",
  "On an integer axis every integer, however large, is counted in the bin of its own value when that lies in the range, otherwise in underflow or overflow if present, otherwise dropped. On a cut axis every false value is counted in the first bin and every true value in the second. The displayed bins agree in number and order with the stored bins.",
  ["inputs", "configurations"], "every integer value, every min <= max, all flag combinations, every boolean, arrays of every length",
  "Tests fill a handful of small integers; wrap-around, range-edge and flag-combination faults are not sampled.",
  ["histbook/calc/__init__.py", "histbook/axis.py"],
  [("intbin and cut kernels", "histbook/calc/__init__.py: histbook_intbin, library['histbook.intbin*'], library['histbook.cut']"), ("axes", "histbook/axis.py: intbin, cut (_goals, totbins, keys)")],
  observe=["Hist.fill then Hist._content / Hist.table against axis.keys()"])

prop("C04", "Group axes: entries with the same category or interval share one group",
  "On a categorical axis two entries share a group exactly when their values are equal, and the group is labelled by that value. On a sparse binned axis with any width, origin and closed-edge option each number is put in the group whose displayed interval (low edge congruent to the origin modulo the width) contains it; NaN values go to one NaN group, or are dropped when NaN is disabled. Groups are created only for values that occur.",
  ["inputs", "configurations"], "every sequence of values, every positive width, every origin, all flag combinations",
  "Tests use one width and origin and a few values; wrong closed edges, non-zero origins, NaN mixtures and group mix-ups across several group axes are not sampled.",
  ["histbook/calc/__init__.py", "histbook/axis.py", "histbook/hist.py"],
  [("group kernels", "histbook/calc/__init__.py: histbook_groupby, histbook_groupbin"), ("group axes", "histbook/axis.py: groupby, groupbin (_goals, keys, items)"), ("group dictionaries", "histbook/hist.py: Hist._postfill filldict")],
  observe=["Hist.fill then Hist._content, axis.keys(content), axis.items(content)"])

prop("C05", "Filling adds every kept entry to exactly one cell, with the right sums",
  "Filling a histogram with any number and mix of axes and profiles adds, for every entry that no axis drops, exactly its weight (1 if unweighted), its squared weight (if weighted or filtered), and weight times each profile value and weight times its square, to the one cell addressed by its bin on every axis; no other cell changes and dropped entries contribute nothing. Filling in several batches gives the same contents as filling once with the concatenated data.",
  ["inputs", "configurations", "histories"], "every data set of every length (of numeric types wide enough to hold the products of its values), every split into batches, every prior content, every combination of fixed, group and profile axes",
  "Tests check a few small fills; misaligned profiles when entries are dropped, wrong strides for three or more axes or swapped columns need particular combinations.",
  ["histbook/hist.py", "histbook/fill.py"],
  [("index linearisation and accumulation", "histbook/hist.py: Hist._postfill (fillblock, filldict)"), ("column layout", "histbook/hist.py: Hist.__init__"), ("data flow", "histbook/fill.py: Fillable._fill")],
  [("content", "numpy array of sums per cell, or nested dict of such arrays for group axes", "histbook/hist.py: Hist._content")],
  ["Hist._content, Hist.table after Hist.fill"])

prop("C06", "Weights and filters act on the entries they describe",
  "A weight expression or number multiplies the contribution of each entry (its square multiplies the squared-weight sum), a filter gives the same contents as filling only the entries for which it is true, and both together combine. An entry whose weight is NaN contributes zero.",
  ["inputs", "configurations"], "every data set with finite profile values, every weight expression or number, every filter expression",
  "Tests fill one weighted histogram; a squared weight that forgets the filter or NaN weights that leak into one column are not sampled.",
  ["histbook/hist.py", "histbook/fill.py"],
  [("weight and filter expressions", "histbook/hist.py: Hist.__init__"), ("weight columns", "histbook/hist.py: Hist._postfill")],
  observe=["Hist._content, Hist.table after Hist.fill"])

prop("C07", "Rewriting an expression to canonical form preserves its value",
  "For every expression built from numbers, fields, + - * / ** // %, parentheses, function calls, comparisons, set membership, 'and', 'or', 'not' and definitions, the canonical form that histbook keeps has the same value as the expression as written by Python's rules, for all field values at which every subexpression is defined and no compared quantity is NaN. Expressions outside this language are rejected, not silently changed.",
  ["programs", "inputs"], "every expression of the language, of any size and nesting, and every assignment of field values",
  "Tests compare the printed form of selected small expressions; algebra errors that need two common factors, two constant terms or a negated compound are not sampled.",
  ["histbook/expr.py"],
  [("parser", "histbook/expr.py: Expr.parse"), ("field algebra", "histbook/expr.py: RingAlgebra.combine/negate, RingAlgebraAddLike.normalform/collect/distribute/simplify, RingAlgebraMultLike.normalform"), ("logic", "histbook/expr.py: Logical, LogicalAnd, LogicalOr, Relation.negate, Predicate.negate")],
  observe=["Expr.parse(text) evaluated through Hist.fill"])

prop("C08", "The compiled fill plan computes every axis quantity from the user's fields",
  "For any set of expressions over shared or distinct subexpressions and constants, the compiled plan evaluates every one of them exactly once and exactly as its expression says: each step uses only quantities already computed and not yet discarded, every requested quantity is delivered to every axis that needs it, and the reported field names are exactly the data it reads. The arrays supplied by the user are never modified.",
  ["programs", "inputs", "configurations"], "every set of canonical expressions of any size sharing any subexpressions, every set of fields, every array length",
  "Tests compile a few expressions; ordering faults depend on which subexpressions are shared and how often.",
  ["histbook/instr.py", "histbook/fill.py", "histbook/calc/__init__.py"],
  [("tree form", "histbook/instr.py: totree"), ("call graph and schedule", "histbook/instr.py: CallGraphNode.grow/sources, walkdown, instructions"), ("execution", "histbook/fill.py: Fillable.fields/_fill; histbook/calc/__init__.py: calculate and the function table")],
  observe=["Hist.fields; contents after Hist.fill; the caller's arrays after Hist.fill"])

prop("C09", "Filling a book equals filling each of its histograms alone",
  "After filling a book (possibly nested, possibly changed by adding, replacing or deleting histograms at any level between fills) every histogram in it has exactly the contents it would have if it alone had been filled with the same data, in whatever order the histograms are held and however many expressions they share. This holds for plain books, views of samples or channels, and books of systematics.",
  ["inputs", "configurations", "histories"], "every tree of distinct histograms, every history of structural changes and fills, every data set",
  "Tests fill a couple of flat books once; stale plans after a nested change and cross-talk between histograms that share expressions need histories and combinations.",
  ["histbook/book.py", "histbook/fill.py", "histbook/hist.py"],
  [("shared plan", "histbook/book.py: Book.fields/_goals/_streamline/fill"), ("delivery of results", "histbook/hist.py: Hist._streamline; histbook/fill.py: Fillable._fill")],
  [("plan cache", "compiled instructions of a book", "Book._fields, Book._instructions")], ["contents of each histogram after Book.fill"])

prop("C10", "Adding histograms or books adds them cell by cell",
  "The sum of two histograms with the same axes holds in every cell the sum of the two cells (a missing group or an unfilled histogram counts as zero) and equals filling one histogram with both data sets; in-place addition gives the same result. Books add member by member, keeping members that only one side has. Histograms with different axes, or a weighted with an unweighted one, are refused, and the right-hand operand is never changed.",
  ["inputs", "configurations", "histories"], "every pair of contents including unfilled ones and any nesting of groups, every pair of books",
  "Tests add a few small histograms; sharing of groups present on one side only and partly filled operands are not sampled.",
  ["histbook/hist.py", "histbook/book.py"],
  [("histogram addition", "histbook/hist.py: Hist.__add__, Hist.__iadd__, Hist._copycontent"), ("book addition", "histbook/book.py: GenericBook.__add__, GenericBook.__iadd__")],
  observe=["contents of the result and of both operands"])

prop("C11", "Multiplying by a number scales every cell",
  "Multiplying a histogram or book by a number, on either side or in place, multiplies every stored sum in every cell of every group by that number and changes nothing else; the original is unchanged unless the operation is in place. Unfilled histograms stay unfilled, and non-numbers are refused.",
  ["inputs", "configurations"], "every contents, every nesting of groups, every number",
  "Tests multiply one or two small histograms.",
  ["histbook/hist.py", "histbook/book.py"],
  [("scaling", "histbook/hist.py: Hist.__mul__/__rmul__/__imul__; histbook/book.py: GenericBook.__mul__/__imul__")],
  observe=["contents of the result and of the operand"])

prop("C12", "Copies and derived histograms are independent of the original",
  "A copy, copy-on-fill copy, cleared copy, sum, multiple, projection, selection, rebinning or profile drop of a histogram or book equals what it should at the moment it is made, and from then on filling, scaling, adding to or clearing either one never changes the contents of, or corrupts later fills of, the other. Making it does not change the original. Copies have equal contents, axes, weight, filter and definitions; cleared copies have no contents.",
  ["histories", "configurations"], "every sequence of operations on the original and on things derived from it",
  "Aliasing shows only when two particular operations follow each other; tests check single operations.",
  ["histbook/hist.py", "histbook/book.py", "histbook/proj.py", "histbook/axis.py"],
  [("copying", "histbook/hist.py: Hist.copy, copyonfill, cleared, _copycontent, _unshare, _prefill; histbook/book.py: GenericBook.copy/copyonfill/cleared"), ("fresh axes", "histbook/hist.py: Hist.__init__"), ("fresh contents", "histbook/proj.py, histbook/axis.py: content transformations")],
  [("copy-on-fill flag", "content is shared and must be copied before it is changed", "Hist._copyonfill")], ["contents of the original and of the derived histogram after later operations"])

prop("C13", "Projection sums over the removed axes and nothing else",
  "Projecting onto any subset of the axes gives the histogram that would have resulted from filling with only those axes (and all profiles), for contents without dropped entries: every cell is the sum over all bins, including under-, over- and NaN-flow bins and all groups, of the axes removed. Projection onto all axes gives an equal histogram, and the kept axes keep their order.",
  ["inputs", "configurations"], "every contents, every number of fixed and group axes, every subset kept, every number of groups",
  "Tests project two-dimensional histograms with a fixed number of groups; combining group counts other than those, or mixed fixed and group axes, is not sampled.",
  ["histbook/proj.py"],
  [("projection", "histbook/proj.py: Projectable.project (projarray, addany, addall, projcontent)")],
  observe=["contents of the projection"])

prop("C14", "Selection keeps exactly the bins that satisfy the condition",
  "Selecting by a condition that a bin edge (or category, or cut) can decide keeps exactly the bins all of whose values satisfy it, with unchanged contents and matching axis labels: the result equals filling, with the selected axes, only the data that satisfy the condition. A condition that cuts through a bin or compares with the wrong inequality is refused rather than approximated.",
  ["inputs", "configurations", "programs"], "every axis kind and option, every finite threshold and NaN, every comparison, conjunction and (for group axes) disjunction, every contents",
  "Tests select on a few thresholds; off-by-one slices depend on flags, edge position and inequality together.",
  ["histbook/proj.py", "histbook/axis.py"],
  [("axis decisions", "histbook/axis.py: groupby/groupbin/bin/intbin/split/cut ._select"), ("condition analysis and slicing", "histbook/proj.py: Projectable.select/_select/_selectaxis")],
  observe=["axes and contents of the selection, or the error raised"])

prop("C15", "Rebinning merges bins without losing or moving entries",
  "Rebinning an axis to a subset of its edges, or by an integer factor, makes every new bin hold the sum of the old bins whose intervals it contains (bins outside the new edges go to underflow or overflow if present), leaving other axes, groups, profile sums and NaN bins intact, so that it equals filling the new axis directly. New edges that are not old edges are refused.",
  ["inputs", "configurations"], "every axis and option, every subset of edges, every factor, every contents with any other axes",
  "Tests rebin one small axis at a few edges; index drift depends on flags and on where the first and last kept edges lie.",
  ["histbook/axis.py", "histbook/proj.py"],
  [("merging", "histbook/axis.py: split._rebinsplit, bin/intbin._rebinsplit, ._rebinfactor, groupbin._rebinfactor, bin.split, intbin.bin"), ("axis lookup", "histbook/proj.py: Projectable.rebin, rebinby")],
  observe=["axes and contents of the rebinned histogram"])

prop("C16", "Tables report the statistics of the filled data",
  "A table reports for every cell the sum of weights, its error (square root of the sum of squared weights, or of the count if unweighted), the effective count (squared sum of weights over sum of squared weights), and for each requested profile the weighted mean and the standard error of the mean, with zeros where a cell is empty; columns are labelled in order. With normalization, counts and errors are divided by bin width and by a common factor so that the finite bins sum to one and flow bins are zero. Dropping profiles leaves all remaining columns unchanged.",
  ["inputs", "configurations"], "every contents, every choice of profiles and options, any axes",
  "Tests compare a few tables; swapped columns or a wrong denominator show only for particular combinations of profiles, weights and options.",
  ["histbook/proj.py"],
  [("table", "histbook/proj.py: Projectable.table (handlearray, handle)"), ("dropping profiles", "histbook/proj.py: Projectable.drop")],
  observe=["Hist.table, Hist.drop"])

prop("C17", "Fractions report passing over total with binomial error",
  "The fraction table reports, for every cell of the remaining axes, the total weight and, for each cut, the weight that passes that cut (regardless of the other cuts) divided by the total, with the normal-approximation binomial error times the requested number of standard deviations; empty cells give zeros and profiles have no influence.",
  ["inputs", "configurations"], "every contents with one or more cut axes, any other axes, groups and profiles",
  "Tests do not exercise fractions; picking the failing bin, the wrong cut axis or the wrong denominator depends on axis positions.",
  ["histbook/proj.py"],
  [("fraction", "histbook/proj.py: Projectable.fraction/_fraction, _selectaxis, project, drop")],
  observe=["Hist.fraction"])

prop("C18", "Histograms and books survive JSON and pickle round trips",
  "Writing any histogram or book to JSON text, or pickling it, and reading it back gives an equal object: same axes with all their options, weight, filter, definitions, attachments, nesting and bin contents (for string categories and text or number definitions). The restored object behaves the same in later fills.",
  ["inputs", "configurations"], "every combination of axes and options, every contents, every book tree",
  "Tests round-trip a few objects; an option forgotten in one of the axis serialisers is visible only when that option is not the default.",
  ["histbook/hist.py", "histbook/axis.py", "histbook/book.py"],
  [("serialisation", "histbook/axis.py: tojson/fromjson/_pack/_unpack; histbook/hist.py: tojson/fromjson/__getstate__/__setstate__; histbook/book.py: tojson/fromjson")],
  observe=["Hist.fromjson(json), pickle.loads, equality and later fills"])

prop("C19", "A book behaves as a tree of paths",
  "A book behaves as an ordered mapping from slash-separated paths: after any sequence of assignments and deletions each path holds what was last assigned to it and nothing else changed, intermediate books are created on assignment, a wildcard lookup returns exactly the members whose full path matches and a wildcard deletion removes exactly those, listings give each member once in order, and missing paths raise KeyError.",
  ["histories", "inputs"], "every sequence of assignments, deletions, lookups and listings with any paths and patterns",
  "Tests do a few assignments; faults need particular path prefixes, patterns or orders.",
  ["histbook/book.py"],
  [("path mapping", "histbook/book.py: GenericBook._get/_set/_del/__getitem__/__setitem__/__delitem__/_iteritems/__contains__"), ("views", "histbook/book.py: ViewableBook.view")],
  observe=["lookups, listings and errors of a book"])

prop("C20", "Equality, ordering and hashing of expressions and bins are consistent",
  "Equality of expressions, intervals and axes is an equivalence that distinguishes every stored option, equal objects have equal hashes, and the ordering of expressions is a total order consistent with equality (for constants of one type). Hence the canonical form of an expression does not depend on the order in which commutative terms or logical operands were written, and equal subexpressions are found wherever they occur.",
  ["inputs", "programs"], "every pair and triple of expressions, intervals and axes; every permutation of commutative operands",
  "Tests compare selected pairs; a comparison that forgets one field or is not transitive is visible only for particular pairs.",
  ["histbook/expr.py", "histbook/axis.py"],
  [("comparisons", "histbook/expr.py: __eq__/__lt__/__hash__ of every class; histbook/axis.py: Interval and axis __eq__/__lt__/__hash__/compatible")],
  observe=["==, <, hash and canonical forms"])

prop("C21", "Grouping histograms keeps every member's contents distinct",
  "Grouping named histograms or books with the same axes yields a histogram with one new leading categorical axis, whose group for each name holds exactly that member's contents (zeros if unfilled); adding to a group sums into an existing name and creates a missing one. Members with different axes, or weighted with unweighted ones, are refused, members are unchanged, and the group keys of any group axis are the union over the others.",
  ["inputs", "configurations"], "every set of named histograms, filled or not, weighted, filtered or not, with any axes",
  "Tests group two plain histograms.",
  ["histbook/hist.py", "histbook/book.py"],
  [("grouping", "histbook/hist.py: Hist.group, Hist.togroup, Hist.groupkeys; histbook/book.py: GenericBook.group")],
  observe=["contents of the group and of the members"])

prop("C22", "A rejected fill changes nothing",
  "If a fill is refused because a required field is missing or the arrays differ in length, the contents of the histogram, or of every histogram in the book, are as before and a following valid fill gives the same result as if the rejected one had never been attempted. Single numbers are accepted as if repeated to the common length.",
  ["inputs", "histories", "fault_sequences"], "every history of valid and rejected fills, every missing field or wrong length, at any position among the fields",
  "Tests do not follow a rejected fill by a valid one; partial updates depend on which field is at fault.",
  ["histbook/fill.py", "histbook/hist.py", "histbook/book.py"],
  [("checks before accumulation", "histbook/fill.py: Fillable._fill; histbook/hist.py: Hist.fill; histbook/book.py: Book.fill")],
  observe=["contents after a rejected fill and after the next valid fill"])

prop("C23", "Exports and plots show the histogram's own numbers",
  "The data of a plot, a Pandas data frame or a ROOT histogram made from a histogram are the histogram's own. The Vega-Lite specification of every plot (bar, step, line, area, marker, overlaid or stacked, beside or below, 2-d heatmap) has exactly one row for every displayed cell, carrying that cell's label, low edge or centre as the mark requires, its value (count, profile mean, with the right weight) and, where asked, its error; zero rows are added only at the outer edges of steps and areas; rows are left out only for non-finite bins of numeric axes and non-positive values on a logarithmic scale; the channels and colour domains name the columns and labels that the rows hold; and when plots are combined each shows its own rows and no others. A Pandas export has one row per cell of the table, labelled with its intervals and keys, and the table's (or fraction's) columns. A ROOT export has the axis's edges and the table's contents and errors, flow bins included.",
  ["inputs", "configurations"], "every histogram and every export or plot option; bins wider than 1e-9 of the axis range (plots print edges); rendering by Vega, Pandas and ROOT themselves is out of scope",
  "Tests do not export or plot: Pandas, ROOT and a Vega renderer are not installed; and what a plot shows depends on every combination of axis kinds, channels, marks and contents.",
  ["histbook/export.py", "histbook/vega.py"],
  [("exports", "histbook/export.py: Exportable.pandas/root"), ("plot data", "histbook/vega.py: PlottingChain, Plotable, Combination (_data, _varname, to/vegalite)")],
  observe=["exported object or Vega specification"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
