#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the property texts are reviewable)."""
import json, os
P = []
G='x7/geom/geom.py'; T='x7/geom/transform.py'; M='x7/geom/model.py'; B='x7/geom/bezier.py'
A='x7/geom/anim.py'; V='x7/geom/vec_field.py'; U='x7/geom/utils.py'; C='x7/geom/colors.py'; D='x7/geom/drawing.py'; S='x7/geom/anim_simple.py'

def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
                     mechanism=[dict(name=n, where=w) for n,w in mech],
                     observe_at=list(observe), hook_needed=None)))

I=('inputs',); H=('inputs','histories')

p('C01','Point/vector affine algebra is coordinatewise and well-typed',
  'For every kind of point (absolute, relative, calculated) and vector (plain, relative): P-P is a vector, P+V, V+P, P-V and -P are points, V+V, V-V, -V, V*n, n*V, V/n are vectors, and all of them, dot, cross and the midpoint of two points have exactly the coordinates (or value) the coordinate formulas give. P+P, V-P and multiplying a point by a number raise TypeError, and dividing a vector by zero raises ZeroDivisionError. No operation changes its operands, the in-place forms included, and results are new objects: changing one later changes no operand.',
  I,'all real coordinates and scalars, all combinations of point and vector kinds','tests use a handful of fixed coordinates of plain points and vectors; mixed kinds, zero/negative values and operand mutation are not covered',
  [G],[('Vector.__add__/__sub__/__mul__/__truediv__/__neg__/dot/cross',G),('BasePoint.__add__/__sub__/__neg__/mid/add_vector/sub_vector',G)],['+','-','*','/','dot','cross','mid'])
p('C02','Vector length, unit, normal, rotation and angle agree with plane geometry',
  'For every vector the length is sqrt(x^2+y^2); unit() has length 1 and the same direction, and raises ZeroDivisionError exactly for the zero vector; normal() is the vector turned 90 degrees clockwise. rotate(d) is the counterclockwise rotation by d degrees (so lengths are kept and rotations add up), and angle() is the counterclockwise angle from the positive x axis in degrees, in (-180, 180]. A vector is false exactly when both coordinates are zero, and close(other, d) holds exactly when the distance between the two is below d.',
  I,'all real coordinates, all angles','tests sample a few vectors and right angles',
  [G],[('Vector.length/angle/rotate/unit/normal/close/__bool__',G)],['length','unit','normal','rotate','angle','close'])
p('C03','Relative points and vectors always track their base',
  'At every moment a relative point is at base + offset, a calculated point is at base.base + scale * base offset, and a relative vector is the difference of its two points, also after any sequence of moves of the underlying points; every accessor (xy, x, y, iteration, the point/vector conversions p and v) gives that same current value. PointRelative.fromxy(x, y, base) is at (x, y); fixed() of any point or vector is an absolute object with the current coordinates that no later move of the base changes.',
  H,'all coordinates and scales, all sequences of moves of the base points, all accessors','tests read a dependent point once or twice with fixed numbers; stale caching after a later move is not observable there',
  [G],[('PointRelative.xy/fromxy',G),('PointCalc.xy',G),('VectorRelative.xy',G),('fixed',G)],['xy','x','y','p','v','fixed'],
  [('base','point that a dependent point is defined from',G)])
p('C04','Copies of value objects are equal and independent',
  'copy() of a (nameless) point, vector, bounding box, control point, matrix, transform or vector field, and round() of an absolute one to enough digits, compare equal to the original (round() rounds each component, always in a new object); afterwards no mutation of either object (set, setxy, restore, grow, sort, item assignment, builder operations, assigning fields of the copy) is visible through the other. set(), setxy() and restore() make the receiver have exactly the given coordinates without changing the source. Two objects of these types are equal exactly when they are of the same type and all their components (including a point\'s name and a control point\'s kind) are equal.',
  H,'all coordinates, all mutators applied to either side','tests compare a few copies and rarely mutate either side afterwards',
  [G,B,T,V],[('copy/restore/set/setxy/__eq__',G),('ControlPoint.copy/restore/__eq__',B),('Transform.copy/set_matrix, Matrix.copy',T),('VectorField.copy',V)],['copy','restore','==','set','setxy'])
p('C05','Bounding boxes are normalised and form a lattice under union',
  'However it is built (four numbers, a tuple, two points, in any order of corners) a BBox satisfies xl<=xh and yl<=yh and has exactly the extreme coordinates, and its corner, center, width, height, area, size, tuple, index and iteration accessors agree with those four numbers. a+b is the smallest box enclosing both (commutative, associative, idempotent, BBox(None) neutral), grow(p) is the smallest enlargement including p, and expand(dx, dy) moves each side outward by dx, dy about the same center but never past zero size. BBox(None) has size and area 0, is none and empty, and its corners and center raise ValueError; operands are never changed by +, expand or transformed, whose results are new boxes, and transformed(m) is the smallest box enclosing the four mapped corners.',
  I,'all real coordinates in any order, including degenerate and empty boxes','tests use a few fixed boxes, mostly with ordered corners',
  [G],[('BBox.__init__/__add__/grow/expand/sort/transformed',G)],['BBox','+','grow','expand','transformed'])
p('C06','Bounding box predicates and intersection are mutually consistent',
  'For boxes with coordinates: intersection is the set intersection (BBox(None) exactly when the closed boxes are disjoint) and is symmetric, and is a new box: changing it later changes neither operand; a.contains(b) holds exactly when b lies within the closed box a, and then the intersection is b; contains_pt is strict interior and touches_pt is the open edges without corners. overlaps is symmetric and, for boxes of non-zero area, holds exactly when the intersection has non-zero area; touches holds for boxes of non-zero area exactly when the intersection is non-none with zero area, touches_side exactly when that intersection is an edge segment, and both are symmetric. With BBox(None): intersection is BBox(None), the point and touch predicates are False, and contains/overlaps raise ValueError.',
  I,'all pairs of boxes, including shared edges, shared corners and degenerate boxes','tests enumerate some fixed boxes on a small grid',
  [G],[('BBox.contains/contains_pt/touches/touches_side/touches_pt/overlaps/intersection',G)],['contains','touches','overlaps','intersection'])
p('C07','Line closest point and intersections are geometrically exact',
  'closest(p) lies on the line and is the foot of the perpendicular from p. intersection of two lines is on both lines and raises ParallelLineError exactly when the directions are parallel; translating a line by +/- a vector moves its points by that vector and keeps the direction, and p1, p2, midpoint and from_pts agree. segment_intersection of two non-parallel segments returns the crossing point with both parameters in [0, 1] (the point equals origin + t*direction on each) when they cross in their interiors, or start at the same point and go on into the same quadrant, and their bounding boxes overlap, and returns None when they do not meet; the lines passed in are not changed.',
  I,'all lines and segments with real coordinates and directions of any length','tests use a few axis-aligned and unit-length lines; errors proportional to direction length or sign are invisible there',
  [G],[('Line.closest/intersection/segment_intersection/parallel',G)],['closest','intersection','segment_intersection'])
p('C08','polygon_area is the signed shoelace area for any polygon',
  'polygon_area equals half the sum of the cross products of consecutive vertices taken cyclically: positive for counterclockwise, negative for clockwise order. It does not depend on the starting vertex, changes sign when the vertex order is reversed, does not change under translation, and scales with the determinant of a linear map applied to all vertices.',
  I,'polygons of any number of vertices with real coordinates','tests evaluate a few fixed polygons',
  [G],[('polygon_area',G)],['polygon_area'])
p('C09','Transform builder operations compose in the documented order',
  'A Transform is the affine map of its six numbers (a, b, c, d, e, f): (x, y) -> (ax+by+c, dx+ey+f), as_6tuple returns them, and the default, identity() and reset() are the identity map. translate, scale, rotate, rotate_ccw, rotate_about and compose_outer apply the new operation after the existing map, compose applies its argument before it; rotate(90) takes (-1,0) to (0,1), rotate_ccw turns the opposite way, and rotate_about keeps its center fixed while turning like rotate. Builder operations return the transform itself and never change their argument, even when it is the transform itself.',
  H,'all affine maps, all arguments, all starting states','tests check single operations from the identity with a few numbers',
  [T],[('Transform.translate/scale/rotate/rotate_ccw/rotate_about/compose/compose_outer/reset',T),('Matrix.pre_dot_eq/post_dot_eq',T)],['transform','as_6tuple'],[('_mat','current 3x3 matrix',T)])
p('C10','Untransform always inverts the current transform',
  'For every invertible Transform reached by any sequence of operations (builder operations, compose, set_matrix, reset, push/pop, with-blocks, copy, and earlier uses of the inverse), untransform, untransform_pt and untransform_pts map transform(p) back to p and the inverse matrix is the inverse of the current matrix. Asking for the inverse changes nothing observable, and a singular matrix raises LinAlgError.',
  H,'all operation histories and all invertible affine maps','the cached inverse only goes stale in specific orders of inverse use and modification, which tests do not enumerate',
  [T],[('Transform.inverse cache invalidation',T)],['untransform','inverse'],[('_inverse','cached inverse or None',T)])
p('C11','push/pop restore the exact previous transform; stacks and copies are isolated',
  'After push, any operations, and the matching pop (or leaving the with block, also by an exception, which is propagated), the transform equals its state at the push, to any nesting depth. pop without a push, and entering a with block without push, raise EmptyStackError. A copy has the same map but no pushed states, and operations on either one, including push/pop, never affect the other; set_matrix copies the map of its argument only.',
  H,'all operation sequences between push and pop, all nesting depths','tests use one or two levels with fixed operations',
  [T],[('Transform.push/pop/__enter__/__exit__/copy/set_matrix',T)],['push','pop','copy'],[('stack','saved matrices',T)])
p('C12','simplify decomposes a transform exactly',
  'For every transform whose entries are exactly zero or not negligible (1e-16), is_simple holds exactly when it maps the axes to the axes (both off-diagonal entries zero, or both diagonal entries zero). simplify returns (outer, inner) whose composition outer(inner(p)) equals the original map; for a simple transform the inner part is the identity, otherwise the outer part is a pure translation and the inner part has none; the transform itself is unchanged.',
  I,'all affine maps','tests decompose a handful of matrices',
  [T],[('Transform.is_simple/simplify',T)],['is_simple','simplify'])
p('C13','Single, batch and flattened transformation agree for every transformer',
  'For affine transforms and vector fields alike, and for non-empty lists of points or (x, y) pairs of any length, transform_pts gives element by element the same coordinates in the same order as transform, transform_pt gives the same coordinates as a Point (or a pair when asked), and flatten gives the same numbers interleaved x, y. The kind of the result follows the kind of the input (points to points, pairs to pairs) and neither the input list nor its points are changed. transform_width of an affine transform is the width times the mean of the lengths of the two columns of its linear part; the generic transformer measures how far the image of (w/sqrt 2, w/sqrt 2) is from the image of the origin.',
  I,'all transforms and fields, lists of any length','tests use fixed short lists and never call the batch form of a vector field',
  [T,V],[('Transformer.transform/transform_pt/transform_pts/points_to_np_points/transform_width',T),('VectorField.transform_np_pts',V)],['transform','transform_pt','transform_pts','transform_width'])
p('C14','scale_bbox and canvas_fit fit boxes exactly',
  'scale_bbox(start, target) appends to the existing map the axis-aligned map taking the lower-left and upper-right corners of start to those of target; with keep_aspect it appends the uniform scaling that is the largest for which start fits in target, with the image centered in target on both axes. canvas_fit(size, zoom, origin) maps (x, y) to (zoom*x + origin.x, height - (zoom*y + origin.y)).',
  I,'all non-degenerate boxes anywhere in the plane, all existing maps','tests use boxes at or near the origin starting from the identity',
  [T],[('Transform.scale_bbox/canvas_fit',T)],['scale_bbox','canvas_fit'])
p('C15','bez_split splits a curve without changing it',
  'For every pair of control points and every t in [0, 1] bez_split returns three new control points left, middle, right such that the left..middle curve at s is the original curve at t*s and the middle..right curve at s is the original at t + (1-t)*s, for every s. The outer handles (left handle of the first point, right handle of the second) and end points are kept and the inputs are not changed.',
  I,'all control points, all t in [0,1] and all curve parameters','tests split a few curves at 0.5 and compare numbers',
  [B],[('bez_split',B)],['bez_split'])
p('C16','Flattened curves sample the exact Bezier curve in order',
  'bez(points, n) starts at the first and ends at the last control point exactly and has n+1 points in all, the i-th being the cubic Bernstein polynomial at i/n; flattening only interleaves x and y. bez_path visits the segments between consecutive control points (plus last to first when closed) in order, each sampled this way after transformation, without repeating the shared joint points, and is empty for no control points.',
  I,'all control points, all step counts, any number of segments, open and closed','tests use fixed curves with default steps and recorded output',
  [B],[('bez',B),('bez_path',B)],['bez','bez_path'])
p('C17','Control points keep their handles consistent',
  'l and r of a control point are c+dl and c+dr; reversed swaps the handles and reversing a list twice gives it back; bbox is the smallest box of c, l, r; fixed, copy and round keep the kind; restore takes over point, handles and kind of the control point given, sharing nothing with it. transform maps c, l and r by the transformer (for a linear one exactly, keeping the kind and leaving the original unchanged); under a non-linear transformer a very-smooth point keeps opposite equal handles, a smooth point keeps opposite collinear handles with their mapped lengths, and a sharp point keeps the mapped handles.',
  I,'all control points, kinds and transformers','tests transform a few symmetric control points',
  [B],[('ControlPoint.*',B)],['l','r','reversed','bbox','transform'])
p('C18','Transforming an element equals drawing it under the composed transform',
  'For curves, rectangles, ellipses, rounded rectangles, groups and elements with holes, under every invertible transform m and every own transform, drawing elem.transform(m) covers the same outline points as drawing elem with m composed outside the current matrix (for rounded rectangles whenever the axes stay on the axes the scaling must be uniform); name, pen and closedness are kept. Neither the element nor m is changed by transform.',
  I,'all element kinds, coordinates, own transforms and applied transforms including rotations, reflections and skews','tests transform a few shapes by fixed rotations and translations',
  [M],[('ElemCurve.transform, ElemP1P2.transform_pts/transform, ElemRectangleRounded.transform, Group.transform, ElemWithHoles.transform',M)],['transform','paths'])
p('C19','Element bounding boxes enclose everything drawn',
  'Every outline point drawn by an element under the identity matrix lies inside elem.bbox() (closed box), for all element kinds, own transforms and nesting, and center() is the center of that box. For rectangles and ellipses without a rotating or skewing own transform the box is tight (each side is touched by the outline), and a group\'s box is the smallest box enclosing the boxes of its members mapped by the group transform.',
  I,'all coordinates, radii, own transforms, any nesting of groups','tests compare boxes of a few recorded shapes',
  [M],[('Elem.bbox/bbox_int/center',M)],['bbox','center','paths'])
p('C20','Element copies are deep snapshots and restore brings them back',
  'copy() of an element equals the original (for absolute, nameless points) and shares no mutable geometry with it: after any later edits of the original\'s points, control points, radius or own transform, the copy is unchanged, and vice versa. restore(copy) brings the original back to the copied state (equal to the copy), without aliasing the copy; a curve is restored when it still has the copied number of control points and refuses otherwise. Group.copy and Group.restore snapshot name, pen, visibility, own transform, and the membership of elements and named points.',
  H,'all element kinds, all edits between copy and restore','tests copy and compare once; edits of the own transform after copying are not tried',
  [M],[('Elem.copy/restore and overrides',M)],['copy','restore','=='])
p('C21','Drawing and traversal leave the matrix as found and compose transforms correctly',
  'paths, control_paths, transform and exhausting iter_elems and iter_elems_transformed leave the matrix (map and pushed states) of the drawing context or argument exactly as it was, also when a member raises. iter_elems yields each leaf of nested groups once, in insertion order, with its dotted name and, at the moment it is yielded, the product of all enclosing own transforms outermost first; iter_elems_transformed yields each direct member transformed by matrix composed with the own transform. Hidden groups draw nothing.',
  H,'all nestings, transforms and element orders','tests traverse one recorded model',
  [M],[('Elem.draw_space, Group.paths/iter_elems/iter_elems_transformed, ElemWithHoles.*',M)],['paths','control_paths','iter_elems','iter_elems_transformed'])
p('C22','Group names stay unique and lookups find exactly the named member',
  'After any sequence of add and replace the keys of a group are exactly the names of its members, contain no dot and are unique; add under a fresh dotless name stores the element under that name, and adding a duplicate (or, with fixname, dotted) name picks a fresh dotless one without displacing any member. lookup of a dotted path returns the member found by following groups, raising KeyError for a missing name and ValueError for a path through a non-group. For distinct elements (other than elements with holes, whose own replace is unimplemented) replace replaces the occurrence equal to the one given in this group or nested groups and returns the number replaced, keeps all others, and when it refuses with ValueError the group still has all its members.',
  H,'all sequences of add/replace/lookup over all names','tests add two or three fixed names',
  [M],[('Group.add/lookup/replace/add_pt/lookup_pt',M)],['add','lookup','replace'])
p('C23','Evaluating a dump recreates the model',
  'For every tree of groups, curves, rectangles, ellipses and rounded rectangles, with or without variables, evaluating the text produced by dump in the library\'s namespace gives elements equal to the original in kind, name, pen, closedness, own transform, geometry, membership and visibility (for absolute, nameless points; named points of a group are not dumped, elements with holes are excluded). Every distinct pen and transform value is bound to its own variable, and repeated dumping does not change the model.',
  I,'all models and all coordinate, name and pen values','tests compare dumps of one recorded model textually',
  [M,C],[('Elem.dump_elem/dump, DumpContext.set_var/output',M),('__repr__ of pens, brushes, points, control points, transforms',C)],['dump'])
p('C24','Pens, brushes and colours resolve exactly as specified',
  'A PenBrush built from a pen, a colour, a (colour, width) pair or None has that pen, and from a brush, colour or None that brush; filled and stroked hold exactly when a brush or pen is present and fill_color and stroke_color are theirs or None. stroke_width is the pen width when positive and otherwise the negated width scaled by the transform, and None without a pen. replace returns a new value differing only in what was given, and PensByShape/ColorsByShape lookups and make() give for each of the five shape kinds the documented pen and fill, rejecting unknown kinds with ValueError.',
  I,'all colours, widths and transforms, all shape kinds','tests check a few constructions',
  [C],[('PenBrush/Pen/Brush/PensByShape/ColorsByShape',C)],['stroke_width','fill_color','replace','[]'])
p('C25','Animated points depend only on the time given',
  'After update(t) an animated point is a function of t alone, whatever updates came before: linear animation is (1-t)*start + t*target (per axis for a pair t, after the time function if any), sinusoidal is the same blend with weight (1-cos(tau*frequency*t + offset degrees))/2, circular is start + radius*(sin, cos)(tau*frequency*t + offset), generic is its function of t, start and the point. The start is the position at construction and the target is never changed; a holder updates all its animations with the same t.',
  H,'all times, positions, parameters and update histories','animations are not tested at all beyond imports',
  [A],[('AnimationLinear/LinearFunc/Sinusoidal/Circular/Generic.update, AnimationHolder',A)],['update'])
p('C26','Morphs interpolate control points between curves',
  'After construction a morph replaces its source in the model by a curve with the common number of control points; update(t) sets every point and handle to source + f(t)*(target - source) whatever updates came before, leaving source and target unchanged, and to an off-screen point with zero handles when f(t) is None. A multi-step morph does the same between the two steps surrounding f(t), holding the first and last curve outside the range. restore puts the source back in the model, and a source that is not in the model raises MorphError.',
  H,'all curves, step times, time functions and update histories','untested',
  [A],[('Morph/MorphMultiStep',A)],['update','restore'])
p('C27','Time-shaping functions follow their definitions',
  'interpolate is piecewise linear through its points and constant outside, per axis for pairs; ramp_up rises linearly from 0 to 1 and ramp_down falls from 1 to 0 between start and end; sin, cos, sin_cos and periodic are trig(tau*frequency*t + offset degrees)*scale + shift; identity and identity_xy return t (as a pair), xy applies one function per axis of the same t, and hide_if is None exactly when the function is below the threshold and its value otherwise. The returned functions keep no state between calls.',
  H,'all times and parameters','untested',
  [A],[('Animation.interpolate/ramp_up/ramp_down/periodic/sin/cos/sin_cos/hide_if/xy',A)],['interpolate','periodic'])
p('C28','Vector fields displace points by the interpolated grid vectors',
  'A mesh has evenly spaced node coordinates from one edge of its box to the other on each axis, and lookup at node (i, j) gives exactly (vx[i, j], vy[i, j]), bilinearly in between; transform adds that vector to the point, and a zero field is the identity. scaled(sx, sy) multiplies the components (sy defaulting to sx), normalized divides by the largest magnitude so that it becomes 1, copy is independent, and none of these change the original field or share its vectors with their result; smoothed is the documented centre-weighted window average, normalized.',
  I,'all fields and boxes on meshes of any size','tests check a few nodes of a uniform random field',
  [V],[('Mesh, VectorField.lookup/interp_coords/transform_np_pts/scaled/normalized/smoothed',V)],['lookup','transform','scaled','normalized'])
p('C29','Path helpers apply exact rigid motions',
  'path_rotate and path_rotate_ccw rotate every point about the origin like Transform.rotate and rotate_ccw, path_translate adds the given point or vector, path_to_xy and path_from_xy are inverse conversions; order, count and the requested kind (points or pairs) are kept, inputs are unchanged and resulting points are new objects that share nothing with them. min_rotation(target, source) is congruent to target-source modulo 360 and lies in [-180, 180). check_point_list accepts exactly lists of points and BasePoint.parse groups numbers, pairs and points in order, rejecting malformed input with ValueError.',
  I,'all paths of any length, all angles','tests check a few values',
  [U,G],[('path_rotate/path_rotate_ccw/path_translate/path_to_xy/path_from_xy/min_rotation/check_point_list',U),('BasePoint.parse',G)],['path_*','min_rotation','parse'])
p('C30','Arcs, circles, crosses and pluses lie where specified',
  'Every point of arc and circle is at distance r from the center; an arc starts at the start angle and ends at the end angle (modulo 360), with evenly spaced angles travelling counterclockwise for ccw and clockwise for cw through less than a full turn, and the given number of steps (default one per degree). arc2p starts its list with end, center, start where the center is at distance r from both on the requested side, followed by the counterclockwise arc from start to end about that center, raising ValueError exactly when the points coincide or are more than 2r apart; cross and plus have arms of length r about c.',
  I,'all radii, centers, angles, step counts and directions','tests check a few values',
  [U],[('arc/arc2p/circle/cross/plus',U)],['arc','arc2p','circle','cross','plus'])
p('C31','Adding a control point never changes the drawn curve',
  'add_one inserts exactly one control point into the segment between consecutive points (cyclically) that are farthest apart, splitting that segment at its middle, so that the sequence of Bezier segments traced by a closed curve (and every segment of an open curve when the gap chosen is not the closing one) traces the same path; the two neighbours of the new point only change the handle towards it, a sharp control point stays sharp, and all other control points, the name, pen and own transform are unchanged.',
  I,'all closed curves of two or more control points','the only test compares recorded output for one curve',
  [M,B],[('ElemCurve.add_one',M),('bez_split',B)],['add_one'])
p('C32','Ellipse and rounded-rectangle control points trace the intended outline',
  'make_ellipse_cps gives four control points at center plus/minus the radii with handles of length 4/3*tan(22.5 degrees) times the radius, each tangent to the ellipse, so the outline passes through the extreme points. make_rounded_rect_cps gives, for rectangles of positive width and height, an outline inside the rectangle of its two corners that touches all four sides, with straight sides, corner arcs of radius min(radius, half of each side) whose ends are tangent to the sides, and no duplicated consecutive control points.',
  I,'all corner orders, positive sizes and radii, including zero and oversized radii','tests compare two or three recorded shapes',
  [M],[('make_rounded_rect_cps/make_ellipse_cps/make_ellipse_p1p2_cps',M)],['make_rounded_rect_cps','make_ellipse_cps'])
p('C33','Elements emit the drawing operations their pen asks for',
  'draw issues for each path of the element one polygon with the fill colour (the shadow colour while drawing a shadow, unless the fill is transparent) when filled, plus a closed line when also stroked, or a line along the path when only stroked, and nothing when neither (circles drawn in debug mode aside), with the stroke colour and with width max(1, round(stroke width under the current matrix)) in production mode and 1 otherwise. A rectangle path is its four mapped corners closed, a curve, ellipse or rounded rectangle path samples each Bezier segment between its control points (mapped by the own transform and the matrix) evenly and in order, back to the start when closed, without repeating joints, and an element with holes draws one fill path running through outside and every hole and one stroke path for the outside and for each hole, each exactly once. The context maps points to the canvas with its matrix and back with the inverse, and crops to the mapped box in increasing pixel order.',
  I,'all elements, pens, colours, widths, modes and matrices','tests render a recorded image of one model',
  [M,D,C],[('Elem.draw, paths',M),('DrawingContext.scale_pt/unscale_pt/line/polygon/crop_to_pixels/stroke_width',D)],['draw','paths','scale_pt','crop_to_pixels'])
p('C34','Animations produce one frame per step at the right times',
  'SimpleAnimation.animate calls the drawing function once per frame with times t_low + i*(t_high-t_low)/steps for i = 0..steps, under a matrix mapping the drawing box to the whole image with y up, and appends exactly one image per call. Builder.build_all updates the animations to i/steps for i = 0..steps-1 before drawing the model and keeps one image per step, and max_bbox is the union of the images\' boxes.',
  I,'all step counts, time ranges, image sizes and boxes','untested',
  [S,A,D],[('SimpleAnimation.animate/next_step',S),('Builder.build_one/build_all/max_bbox',A),('bbox_max',D)],['animate','build_all'])
p('C35','Splitting a self-intersecting curve keeps its outline',
  'bez_self_intersect returns no curves exactly when the curve intersector of the bezier package reports no crossing between two segments (or within one). Otherwise, for a closed curve whose crossings are isolated, inside the segments and double (two branches meet), it returns closed curves made of the pieces of the original segments between crossings, each piece used exactly once in its original direction, no curve passing twice through a crossing, with sharp control points at crossings; the list and the control points given are unchanged and not shared with the result. bez_intersect reports every crossing of two segments once, with its point on the first and the parameters on both, leaving out the shared end points of consecutive segments unless endpoints is set.',
  I,'all shapes of closed curves, all crossing layouts','tests look for one or two crossings only and never check the pieces returned',
  [B,M],[('bez_self_intersect, bez_intersect, bez_intersect_new, BziGraph',B),('ElemCurve.self_intersect',M)],['bez_self_intersect','bez_intersect'])
p('C36','GIF export keeps the drawn frames',
  'Builder.scaled returns one image per frame in order (the images given, else the builder\'s own): cropped to the box if one is given and, unless scale is 1, reduced to the size of the first divided by scale and rounded down; reduced frames with alpha are opaque exactly where resampling left them fully opaque and transparent elsewhere. save_animation crops all frames to their common bounding box extended by 16 pixels within the image (unless autocrop is off), reduces them by two, puts frames with alpha on black, maps all of them with one palette made from all of them, and (on darwin) saves them once, in order, looping, each shown int(1000*duration/frames) milliseconds. make_palette holds the 256 most frequent colours of all frames together, all of them if there are fewer; rgb_to_transparent marks the colour of the upper left pixel as transparent. The frames given are unchanged.',
  I,'all frame counts, sizes and boxes','untested',
  [A,'x7/geom/imagehelp.py'],[('Builder.scaled/resize_for_gif/save_animation/make_palette, rgb_to_transparent',A)],['save_animation','scaled','make_palette'])
p('C37','Elements, paths and meshes are equal exactly when they describe the same thing',
  'Two elements are equal exactly when they have the same type and the same name, pen, closedness, own transform and geometry: the corners (and radius) of rectangles, ellipses and rounded rectangles, the control points of curves in order, the members of groups under the same names with the same named points and visibility, the outside and the holes of an element with holes. The same holds for control paths and control meshes (same entries in the same order). ControlPoint.close(other, d) holds exactly when the kinds agree and the position and both handles are each within d. Comparing changes neither side.',
  I,'all pairs of elements, paths, meshes and control points','tests compare a few recorded objects with copies of themselves; that a difference in any one field is noticed is not covered',
  [M,B,V],[('__eq__ of the elements',M),('ControlPath.__eq__, ControlPoint.close',B)],['==','!=','close'])
p('C38','GroupBuilder adds exactly the elements asked for',
  'GroupBuilder adds exactly the element asked for: the kind, geometry and name given, with the pen of the shape kind (default kind edge) or the given PenBrush, curves closed as given or else exactly when the pen is filled; it refuses unknown shape kinds (ValueError) and pens that are not a PensByShape (TypeError). A sub-builder inherits pens and shape kind and its group becomes a member; points are named and stored; rotate_about_center adds the element turned about the center of its box, under its name with _r and the given extra, and leaves the original as it was. draw, iteration, lookup, replace and dump of the builder are those of its group, and hiding the builder makes its group draw nothing.',
  H,'all geometry, names, shape kinds, pens and sequences of builder calls','tests build one or two recorded models',
  [M,C],[('GroupBuilder',M),('PensByShape',C)],['GroupBuilder'])
p('C39','as_curves turns any element into curves with the same control points',
  'as_curves(e) gives one curve per leaf of e, in drawing order: with the leaf\'s name, pen and closedness, no own transform, and the leaf\'s control points (those of the outline for rectangles, ellipses and rounded rectangles) mapped by all own transforms from the leaf to the root, outermost last. The original is unchanged and shares no control point with the result.',
  I,'all nestings of elements, groups and elements with holes with any own transforms','tests compare recorded output for one model',
  [M],[('as_curves of every element class',M)],['as_curves'])
p('C40','Offsetting a curve moves its control polygon inwards by the distance given',
  'offset(d) moves each point of the control polygon (handles included, taken counterclockwise) to distance d from the lines through both adjacent polygon edges, on the inside for positive d; a point that coincides with a neighbour on the polygon stays where it is; at sharp corners the move goes along the bisector, has length OFFSET_PT_LIMIT at most and keeps its side. The result has the name with _o, the pen, closedness and kinds of the curve in order, and the original is unchanged.',
  I,'all curves, distances and corner angles','tests compare recorded output for one curve',
  [M],[('ElemCurve.offset, offset_pt',M)],['offset'])
p('C41','Parts of composite elements keep pen, names and boxes in step',
  'An element with holes gives all its parts its pen, and lookup finds exactly outside.<name> and inside.<name> of its parts and raises KeyError for other names. bbox_int_update makes bbox_int equal to the box given for rectangles, ellipses and rounded rectangles, without sharing points with that box, and raises ValueError for curves, groups and elements with holes. The corners of rectangles, ellipses and rounded rectangles are fixed copies of the points given, which later moves of those points do not change.',
  I,'all parts, names, boxes and points','tests look up one recorded element',
  [M],[('ElemWithHoles.__init__/lookup',M),('ElemP1P2.__init__/bbox_int_update',M)],['lookup','bbox_int_update'])
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
