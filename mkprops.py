import json
V="valid input (at least three outline vertices; all points finite and pairwise distinct; outline simple; holes simple, strictly inside the outline, disjoint and not nested; no input point in the interior of an outline or hole edge; coordinate magnitudes whose products neither overflow nor underflow)"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
SW="src/sweeper.rs";CD="src/cdt.rs";PT="src/points.rs";TR="src/triangles.rs";SH="src/shape.rs";AF="src/advancing_front/vec_backed.rs";UT="src/utils.rs";LO="src/loader.rs"
p("C01","Triangulation of valid input always terminates without panicking",
 "For every "+V+", building and triangulating (with or without an observer) terminates and returns normally (given enough memory and stack): no panic, no endless loop or recursion, no arithmetic overflow, in debug and in release builds.",
 ["inputs"],"every valid polygon with holes and steiner points, any coordinates",
 "Tests run five fixed polygons and one random one; the panicking/looping cases need a particular combinatorial position of points (edge events that fill concave and convex runs of the front, flip scans, equal coordinates, collinear neighbours), which is a choice among all inputs.",
 [SW,CD,AF,TR,SH,PT],[("point and edge events",SW+" sweep_points/point_event/edge_event"),("filling below an edge",SW+" fill_*_edge_event"),("flip and flip-scan",SW+" flip_edge_event/flip_scan_edge_event"),("advancing front lookups",AF)],["CDT::triangulate","CDT::triangulate_with_observer"])
p("C02","The triangles tile exactly the polygon minus its holes",
 "For every valid input the triangulation returns triangles that are all non-degenerate and counter-clockwise, do not overlap, meet only in whole shared edges or vertices, and whose union is exactly the region inside the outline and outside every hole.",
 ["inputs"],"every valid polygon with holes and steiner points, either winding of every ring",
 "Tests compare only the number of triangles of two files; overlap, gaps, flooding into a hole or out of the outline depend on the geometry of each input.",
 [SW,TR,SH],[("interior flood fill bounded by constrained edges",SW+" finalize_polygon/clean_mesh"),("edge insertion by flips",SW+" edge_event_process/flip_edge_event"),("neighbour bookkeeping",SW+" rotate_triangle_pair, "+TR+" mark_neighbor")],["Triangles iterator","Triangles::triangle_list_indices"])
p("C03","Every outline and hole edge appears in the result",
 "For every valid input, each edge of the outline and of each hole is an edge of exactly one returned triangle (the one on the polygon's side), and no returned triangle has an edge that crosses an outline or hole edge.",
 ["inputs"],"every valid polygon with holes and steiner points, every constraint edge of it",
 "No test looks at the edges of the result; whether an edge survives later flips depends on the position of all other points.",
 [SW,SH,TR],[("edge events insert and mark constrained edges",SW+" try_mark_edge_for_triangle/edge_event_process/flip_edge_event"),("legalization skips constrained edges",SW+" legalize"),("edge attributes move with a rotation",SW+" rotate_triangle_pair")],["Triangles::triangle_list_indices"],[("edge_attrs","constrained / delaunay flag of each triangle edge",SH)])
p("C04","The result is a constrained Delaunay triangulation",
 "For every valid input, the vertex opposite to a shared, non-constraint edge of two returned triangles is never strictly inside the circumcircle of the other triangle, decided exactly (no tolerance).",
 ["inputs"],"every valid polygon with holes and steiner points, every shared edge of the result, including nearly and exactly cocircular points",
 "Tests count rotations on two files; a skipped or wrong legalization yields a valid but non-Delaunay result for particular inputs only.",
 [SW,UT,TR],[("legalization queue",SW+" legalize"),("in-circle predicate",UT+" in_circle"),("re-legalization after constraint insertion",SW+" edge_event"),("delaunay flag bookkeeping",TR+" mark_neighbor_for_two_mut")],["Triangles::triangle_list_indices"])
p("C05","Exactly the inside points are vertices of the result",
 "For every valid input, every outline and hole vertex and every steiner point lying inside the polygon and outside its holes is a vertex of the result, no steiner point lying outside the outline or inside a hole is, and the library's artificial points never appear; such excluded steiner points do not disturb the rest of the result.",
 ["inputs"],"every valid polygon with holes, every steiner point anywhere in the plane not on an edge",
 "Tests use no steiner point outside of the polygon and check no vertex use; the effect depends on where the point falls in the sweep order and on the front.",
 [SW,PT,CD],[("finding the first interior triangle",SW+" finalize_polygon"),("flood fill",SW+" clean_mesh"),("artificial head and tail points",PT+" Points::new")],["Triangles::triangle_list_indices","Triangles iterator"])
p("C06","Points, data, indices and iterator of the result agree",
 "For every input and order of builder calls, the result's points are the input points, bit for bit, in insertion order (outline, then holes and steiner points in the order added), data(i) is the value given with points(i), and the i-th triple of the index list names the corner points of the i-th iterated triangle; the index list is complete and the same before, during and after iteration.",
 ["inputs","histories"],"every valid input, every interleaving of add_hole, add_holes, add_steiner_point, add_steiner_points, every iteration position",
 "One test checks data order for one call sequence without triangulating; another checks lengths only.",
 [CD,PT],[("parallel point and data vectors",CD+" Builder"),("points without the artificial ones",PT+" points_without_fake"),("index list and iterator over the same ids",CD+" Triangles")],["Triangles::points","Triangles::data","Triangles::triangle_list_indices","Triangles iterator"])
p("C07","An observer does not influence the result",
 "For every valid input, triangulating with any observer gives the identical index list, points and data as triangulating without one, and repeating the triangulation of a cloned builder or CDT gives the identical result again.",
 ["inputs"],"every valid input; observers that read all of the exposed state at every callback",
 "Tests never compare a run with an observer against one without.",
 [CD,SW],[("observer is only passed shared references",CD+" Observer"),("triangulate delegates to triangulate_with_observer",CD+" CDT::triangulate")],["CDT::triangulate","CDT::triangulate_with_observer"])
p("C08","Observer callbacks follow the sweep protocol",
 "For every valid input, every input point except the lowest one (by y, then x) is entered and exited exactly once, in increasing (y, x) order; after a point's exit and before the next enter, exactly the constraint edges whose upper end is that point are reported, once each, with p the lower and q the upper end; then sweep_done and finalized are each reported once, in that order, last. Legalization callbacks nest properly: each will_legalize is closed by one legalized for the same triangle, and legalize_step and triangle_rotated occur only in between.",
 ["inputs","histories"],"every valid input and its whole callback history, including equal y and equal x coordinates",
 "Tests only count three of the callbacks on two files, and contain hardly any ties in y.",
 [SW,CD,PT,SH],[("sort by y then x",PT+" Points::new"),("event loop",SW+" sweep_points"),("edge orientation",SH+" Edge::new"),("edges attached to the upper end",CD+" parse_polyline")],["Observer"])
p("C09","The mesh is a valid triangulation at every callback",
 "For every valid input, at every observer callback the stored triangles are strictly counter-clockwise with three distinct known corner points, neighbour links are mutual and across an identical shared edge, no edge has more than one triangle per side, and the two sides of a shared edge agree on whether it is constrained.",
 ["inputs","histories"],"every valid input, every callback of its history",
 "Tests never inspect the intermediate mesh; the corruption needs a particular flip order or a fill next to a flip.",
 [SW,TR,SH],[("rotation of a triangle pair",SW+" rotate_triangle_pair"),("neighbour marking",TR+" mark_neighbor_for_two_mut"),("fill of a front node",SW+" fill_one")],["Observer callbacks: context.triangles"],[("neighbors","neighbour triangle per edge",SH)])
p("C10","A constraint edge, once inserted, stays in the mesh and stays marked",
 "For every valid input, when an edge is reported to the observer, and at every later callback, that edge is an edge of the stored mesh and is marked as constrained in every triangle that has it; edges that are not constraint edges are never marked.",
 ["inputs","histories"],"every valid input, every constraint edge, every later callback",
 "Tests never look at the marks; they are lost or gained only when flips for a later edge, or legalization, pass over the edge.",
 [SW,SH,TR],[("marking",SW+" try_mark_edge_for_triangle/flip_edge_event"),("attributes carried through rotations",SW+" rotate_triangle_pair"),("legalize skips constrained edges",SW+" legalize")],["Observer::edge_event and later callbacks: context.triangles"])
p("C11","The advancing front stays an ordered chain linked to the mesh",
 "For every valid input, at every exit of a point event and at every edge event the advancing front is a chain from the artificial head to the artificial tail, strictly increasing in (x, y), in which each two successive nodes form a boundary edge of the triangle recorded for the first one; looking up any node, any position between or beside nodes, or a node id kept from an earlier event finds the node that iteration shows, and for a node that is gone the neighbours it would have.",
 ["inputs","histories"],"every valid input, every event, every lookup position, whatever was cached before",
 "One test does four lookups on a front of three nodes; staleness of the lookup cache or of the recorded triangles needs a particular sequence of inserts, deletions and flips.",
 [AF,SW],[("sorted node vector",AF+" insert/search_by_key"),("lookup cache",AF+" search_by_key_with_cache"),("remapping after legalization",SW+" map_triangle_to_nodes")],["Observer callbacks: context.advancing_front"],[("nodes","front nodes in order",AF),("access_cache","last looked-up key and index",AF)])
p("C12","All swept triangles are legal after every event",
 "For every valid input, after every point event together with its edge events, no unconstrained edge of the stored mesh (including the part attached to the artificial points) has the opposite vertex of one side strictly inside the circumcircle of the other side.",
 ["inputs","histories"],"every valid input, every prefix of the sweep",
 "The debug assertion for this runs only on the inputs of the tests, and release builds never check it.",
 [SW,TR],[("legalize after insertion, fill and edge flips",SW+" legalize"),("delaunay flag cleared when neighbours change",TR+" mark_neighbor_for_two_mut")],["Observer::enter_point_event, sweep_done: context.triangles"])
p("C13","Scaling the input by a power of two does not change the result",
 "For every valid input, multiplying all coordinates by the same power of two (as long as products neither overflow nor underflow) gives the identical index list: no decision depends on an absolute tolerance or on the magnitude of the coordinates.",
 ["inputs"],"every valid input, every power-of-two scale in the stated range",
 "Tests use coordinates between -10 and 1000 only.",
 [UT,SW,AF,PT],[("exact predicates",UT+" orient_2d/in_circle"),("coordinate comparisons",SW+" point_event"),("front key comparison",AF+" PointKey")],["Triangles::triangle_list_indices"])
p("C14","Safe calls never cause undefined behaviour, even on invalid input",
 "For every finite input, valid or not (self-intersecting outlines, crossing or nested holes, points on edges, collinear outlines), building, triangulating, observing (also with triangle ids, node ids and positions that belong to nothing) and reading the result through the safe API never accesses memory out of bounds or otherwise violates the preconditions of unsafe operations; failing by a panic is allowed.",
 ["inputs"],"all finite coordinates of a small number of points without any validity assumption",
 "Tests use valid inputs only; an out-of-bounds read does not fail a test.",
 [TR,AF,PT,CD],[("unchecked slice access",AF+" get_unchecked, "+PT+" get_point_uncheck, "+CD+" Triangles::next"),("raw pointers to two or six triangles",TR+" get_mut_two/get_mut_six")],["CDT::triangulate","Observer"])
p("C15","The result does not depend on how the input is presented",
 "For every valid input whose constrained Delaunay triangulation is unique, reversing a ring, starting it at another vertex, reordering holes or steiner points, adding them one by one instead of in a batch, or writing zero coordinates as -0.0 gives the same set of triangles (as sets of points); when it is not unique, the results differ only in the choice among cocircular points.",
 ["inputs","histories"],"every valid input, every presentation of it",
 "Tests present each input in one way.",
 [CD,PT,SW],[("edges stored at their upper end",CD+" parse_polyline"),("sorting makes the sweep independent of insertion order",PT+" Points::new")],["Triangles iterator"])
p("C16","The single precision build gives the same guarantees",
 "With the f32 feature, for every valid input whose coordinates are small integers times a power of two, triangulation completes and returns a tiling of exactly the polygon minus its holes by counter-clockwise triangles that is constrained Delaunay, decided exactly on the given coordinates.",
 ["inputs","configurations"],"every valid input on the stated grid, f32 configuration",
 "No test builds with the f32 feature.",
 ["src/lib.rs",UT,PT,SW],[("Float alias",'src/lib.rs'),("predicates evaluated in double precision",UT)],["CDT::triangulate"])
p("C17","Well-formed files are loaded exactly",
 "For every well-formed file (outline lines, then HOLE and STEINER sections in any order, blank lines, any white space between and around numbers, LF or CRLF line ends, numbers in any notation), loading it and triangulating gives the identical points, each section in file order, and the identical triangles as building the same outline, holes and steiner points directly.",
 ["inputs"],"every arrangement of sections and blank lines, all coordinates",
 "No test covers the loader at all.",
 [LO],[("line oriented parser",LO+" PlainFileLoader::load/parse_point")],["Loader::load"])
p("C18","Malformed files are reported as errors, never as a panic",
 "For every file content whatsoever, and for a missing or unreadable file, loading returns Ok or an error value: a line that is not blank, not a section keyword and does not begin with two numbers yields an error, a ring that repeats a point in succession yields an error, and loading never panics.",
 ["inputs"],"every byte sequence as file content",
 "No test covers the loader at all.",
 [LO],[("parse_point / parse_float",LO),("error type",LO+" LoaderError")],["Loader::load"])
p("C19","The sweeper's self-check tells the truth",
 "For every valid input, whenever an observer asks the sweeper for its illegal triangles, it gets exactly the pairs of neighbouring triangles, across an edge not marked as constrained, in which the far corner of the second is strictly inside the circumcircle of the first, each once; verifying the triangles succeeds exactly if there are none.",
 ["inputs","histories"],"every valid input, every event and a part of the callbacks within legalizations, where illegal pairs exist",
 "Tests only run the check as a debug assertion where it has to find nothing; a check that overlooks pairs passes them.",
 [SW,SH],[("one triangle against its neighbours",SW+" is_legalize"),("all triangles",SW+" illegal_triangles/verify_triangles")],["Sweeper::illegal_triangles","Sweeper::verify_triangles"])
p("C20","Observers see the input in the point store, in sweep order",
 "For every valid input, the point store passed to observers never changes and holds the input points, bit for bit and in insertion order, followed by two artificial points that lie strictly below all input points, one to the left and one to the right of them. Every way of reading it agrees: by id, by iteration with and without the artificial points, and by rank, where ranks list every input point once in (y, x) order, the order in which points are entered. Each outline and hole edge is kept once, at its upper end.",
 ["inputs","histories"],"every valid input, every callback, every rank and id, coordinates near to and far from the origin",
 "Tests never read the store through an observer; ties in y and coordinates far from the origin do not occur in them.",
 [PT,CD,SH],[("sorting",PT+" Points::new"),("artificial points",PT+" Points::new"),("edges attached to the upper end",CD+" parse_polyline"),("readers",PT+" iter/iter_without_fake/iter_point_by_y/get_id_by_y/get_point")],["Observer callbacks: context.points"])
p("C21","Every way of reading the mesh agrees, and the result list appears only at the end",
 "For every valid input: until sweep_done the list of result triangles is empty and no triangle is marked as interior; at finalized the list shows exactly the returned triangles in the returned order, exactly these are marked interior, and the mesh is that of sweep_done. At every callback every accessor of a triangle or of the triangle store (ids, iteration, length, next corners clockwise and counter-clockwise, index of a corner, of an edge and of the common edge of two triangles, neighbours, opposite corner, constraint marks) agrees with the stored corners, neighbours and marks; ids that no triangle has find nothing.",
 ["inputs","histories"],"every valid input, every callback, every triangle, corner and edge of the mesh",
 "Tests of the accessors use one hand-made triangle each; an accessor that is wrong for one corner order or for an edge without neighbour passes them.",
 [SH,TR,SW,CD],[("accessors of a triangle",SH+" InnerTriangle"),("triangle store",TR+" TriangleStore"),("collection of the interior",SW+" finalize_polygon/clean_mesh")],["Observer callbacks: context.triangles, context.result"])
p("C22","After every event the mesh covers everything swept so far",
 "For every valid input, at the end of every point event, at the end of every edge event and at sweep_done, the corners of the stored triangles are exactly the points swept so far and the two artificial points, and the border of the stored triangles consists of exactly the base between the artificial points and the links of the advancing front, each once.",
 ["inputs","histories"],"every valid input, every event of the sweep",
 "Tests look at the final result only; a hole or a lost point in the intermediate mesh shows there only for some continuations of the sweep.",
 [SW,AF],[("a point enters the mesh",SW+" point_event"),("fills",SW+" fill_one/fill_advancing_front/fill_basin"),("front",AF)],["Observer callbacks: context.triangles, context.advancing_front"])
p("C23","Reported rotations are exactly the changes that legalizing makes",
 "For every valid input: when an observer is told that two triangles are rotated, they are neighbours across an edge that is not constrained and the far corner of the second is strictly inside the circumcircle of the first; the next state of the mesh has the same quadrilateral with the other diagonal in these two triangles. Within a legalization nothing else in the corners of the mesh changes, a legalization whose mesh has changed has reported rotations, and triangles are only ever added one at a time, each announced at once by a legalization of it.",
 ["inputs","histories"],"every valid input, every legalization",
 "Tests count rotations for one file; which pair is rotated when, and what an observer can see of it, depends on the geometry and the order of the sweep.",
 [SW,CD],[("legalization",SW+" legalize"),("rotation",SW+" rotate_triangle_pair"),("callbacks",CD+" Observer")],["Observer::triangle_rotated","Observer::will_legalize","Observer::legalized"])
p("C24","Moving the input does not change the result",
 "For every valid input, adding one vector to all points gives the identical index list, as long as neither the sums nor the positions of the artificial points (three tenths of the extent outside of the input) are rounded: no decision depends on where the origin is.",
 ["inputs"],"every valid input, every translation in the stated range",
 "Tests use one position of each polygon; signs of coordinates, ties with zero and keys computed from absolute coordinates matter only for others.",
 [PT,SW,AF,UT],[("sorting and artificial points",PT+" Points::new"),("front key",AF+" PointKey"),("predicates",UT)],["Triangles::triangle_list_indices"])
p("C25","Turning or mirroring the input turns or mirrors the result",
 "For every valid input whose constrained Delaunay triangulation is unique, exchanging x and y, negating one or both of the coordinates of all points, or any combination of these, gives the same set of triangles (as sets of points); when it is not unique, the results differ only in edges between cocircular points.",
 ["inputs"],"every valid input, the seven quarter turns and mirrorings",
 "Tests use one orientation of each polygon; the sweep has separate code for left and right, and above and below are not treated alike at all.",
 [SW,PT,AF,UT],[("left and right variants of the edge fills",SW+" fill_left_*/fill_right_*"),("left and right of a basin and of a new point",SW+" fill_advancing_front/fill_basin"),("sweep order",PT+" Points::new")],["Triangles iterator"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
