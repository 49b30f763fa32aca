#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the long texts stay readable in review).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
G="geokit/src/"
p("C01","Concurrent callers get the answers they would get alone, and can share objects",
  "Whenever several threads use the library at once, sharing ellipsoid, prime meridian, datum, CRS, axes, projection-specification, geodesic-solver, line-string and point objects or using private ones, every call returns exactly (bit for bit, including which error or panic) what the same call returns when it is the only call ever made in a fresh process. This holds under every interleaving of the threads, including preemption in the middle of a call, and every call completes: no deadlock, no livelock. Those object types stay shareable and sendable between threads.",
  ["schedules","histories","inputs"],
  "every number of threads, every assignment of public queries to threads, every preemption point inside the library",
  "The tests call each function from one place and never share an object between threads under a chosen interleaving; the Rust test runner's own parallelism samples a handful of uncontrolled schedules and no test compares a concurrent result with the solo result.",
  [G+"geodesy/",G+"crs/",G+"projections/",G+"transformations/xyz.rs",G+"cs/",G+"geometry/",G+"quantities/",G+"math/"],
  [("no mutable global, thread-local or interior-mutable state in any definition, solver, projection or geometry type","whole crate"),
   ("plain-data definition types, automatically Send and Sync",G+"geodesy/ellipsoid.rs, "+G+"crs/*.rs")],
  ["return values, errors and panics of public functions"])
p("C02","Earlier calls, faults and environment never influence a later answer",
  "The result of any public call is a function of its arguments alone: after any history of earlier calls - successful, failing or panicking, long bursts, calls nested inside caller-supplied components, objects dropped and re-created at the same address - it is exactly the result of that call made first in a fresh process. It also does not depend on the clock, on randomness, on the environment, or on whether the object used is fresh, cloned or has already served other calls.",
  ["histories","fault_sequences","inputs"],
  "every sequence of public calls and faults before the observed call, every clock and random outcome",
  "Each unit test makes a few calls on fresh objects in one fixed order; none compares the answer after a long or faulty history with the answer of a fresh process.",
  [G+"geodesy/",G+"crs/",G+"projections/",G+"transformations/xyz.rs",G+"cs/",G+"geometry/",G+"math/"],
  [("pure functions over value types; no caches, counters or sticky state","whole crate")],
  ["return values, errors and panics of public functions"])
p("C03","A coordinate transformation is exactly its four steps, also when a step fails",
  "Transforming forward consults, in this order and exactly once each, the source CRS's conversion to geocentric, the source datum shift to the reference, the destination datum shift from the reference and the destination CRS's conversion from geocentric, each on exactly the previous step's result; backward is the exact mirror. If a step fails or panics, that same error reaches the caller, no later step is consulted, and unless the failing step is the last one the output buffer is exactly as the caller left it; on success only the destination's own coordinates are written and anything beyond them in the buffer is untouched. The transformation remains fully usable after any failure, also when components re-enter it or other transformations.",
  ["fault_sequences","histories","inputs"],
  "every combination of built-in and caller-supplied CRSs and datum shifts, every step failing, panicking or re-entering at every call, every sequence of calls",
  "The tests run a few forward/backward transformations between built-in CRSs on good input; no component ever fails, panics or re-enters, the order and number of component calls and the state of the output buffer after an error are never observed.",
  [G+"transformations/xyz.rs",G+"transformations/mod.rs",G+"crs/",G+"cs/"],
  [("fwd and bwd chain to_xyz, to_ref, from_ref, from_xyz with ? on the fallible ones",G+"transformations/xyz.rs CrsXYZTransformation"),
   ("coordinates are written only by the last step's denormalize",G+"transformations/xyz.rs ToXYZ impls")],
  ["calls received by caller-supplied components","returned error","output buffer contents"])
p("C04","A line string is exactly the positions acknowledged while building it",
  "For every history of building steps - lines added, attempts with a wrong dimension, a distance function that fails or panics, builders cloned as checkpoints and continued independently, closing - a built line string starts, passes and ends at exactly the acknowledged positions in order, its segment lengths are exactly the distances the CRS reported for consecutive positions (asked once per new segment, from the last position to the new one), and the failure of one step is reported as that step's own error and contributes nothing. Its length is the sum of its segment lengths; the position at distance 0 is the start, at the full length the end, and at any distance in between it lies on the segment containing that distance, proportionally along it; asking never panics within [0, length]. Two line strings are equal exactly when their positions and segment lengths are.",
  ["histories","fault_sequences","inputs"],
  "every CRS (built-in or caller-supplied), every sequence of building steps, clones and failures, every query distance in [0, length]",
  "The tests build two or three fixed line strings with a distance function that never fails; they do not clone builders, inject failures, count distance calls, or query the ends of line strings whose lengths do not add up exactly in floating point.",
  [G+"geometry/coordinate/curve/line_string.rs",G+"geometry/coordinate/curve/mod.rs",G+"crs/"],
  [("builder consumes self and pushes position and length only after dist succeeded",G+"geometry/coordinate/curve/line_string.rs line_to, close"),
   ("param walks the stored segment lengths",G+"geometry/coordinate/curve/line_string.rs param")],
  ["start, end, length, param, curve_boundary, equality of line strings","calls received by a caller-supplied CRS"],
  [("positions and segment lengths","control positions and reported distances",G+"geometry/coordinate/curve/line_string.rs LineString")])
p("C05","A curve is exactly the connected segments accepted while building it",
  "For every history of building steps, a segment (line string or caller-supplied) is accepted exactly when its dimension equals the CRS's and it starts where the curve so far ends; rejected segments are reported as errors and contribute nothing, and builders cloned before a step are unaffected by it. The built curve starts where its first and ends where its last accepted segment does, its length is the sum of their lengths, the position at a distance is the one given by the segment containing that distance for the remaining distance (start at 0, end at the full length, never a panic in between), it is a cycle exactly when start equals end, and its boundary is then empty and otherwise its two end points, themselves without boundary. A segment that panics while being queried leaves the curve and its clones intact.",
  ["histories","fault_sequences","inputs"],
  "every sequence of accepted and rejected segments, clones and panicking segments, every query distance in [0, length]",
  "The tests build two fixed curves from one or two line strings; rejection is checked once, clones, caller-supplied segments, failing segments and end-of-curve queries on lengths that do not add up exactly are not.",
  [G+"geometry/primitive/curve.rs",G+"geometry/primitive/point.rs",G+"geometry/mod.rs"],
  [("append_segment checks dimension and connection before pushing a clone",G+"geometry/primitive/curve.rs append_segment"),
   ("param walks the segments' lengths and delegates",G+"geometry/primitive/curve.rs param")],
  ["result of with_seg and append_segment","start, end, length, param, is_cycle, boundary, geometry_type"])
p("C06","sample_s2 prints exactly the requested valid samples for every random outcome",
  "For every outcome of the random source and every option combination, sample_s2 prints exactly the requested number of lines, each holding exactly the fields of the requested coordinate type. Geocentric points lie on the requested ellipsoid in the requested length unit; longitudes and latitudes are in range in the requested angle unit; heights lie in [-1500, 30000] m; each line is an independent fresh sample, the underlying points being uniform on the sphere, and the coordinate types agree with each other on what a sample is.",
  ["inputs","configurations","schedules"],
  "every outcome of the operating system's randomness, every count, coordinate type, ellipsoid and unit option",
  "No test runs the sample_s2 program at all.",
  [G+"bin/sample_s2.rs"],
  [("UnitSphere.sample_iter mapped to the coordinate type and limited by take(count)",G+"bin/sample_s2.rs main"),
   ("s2_to_xyz and s2_to_ll",G+"bin/sample_s2.rs")],
  ["standard output, exit status"])
p("C07","sample_s2 never loses or corrupts output silently under I/O and entropy faults",
  "When writes to standard output are short or interrupted, or the random source is interrupted or must be reached by its fallback, sample_s2 still prints exactly the bytes it prints without the fault for the same randomness and exits successfully. When standard output fails for good (broken pipe, full disk, I/O error, would-block), or no randomness can be had at the start, or memory runs out, it exits with a failure status and what was written is a prefix of the fault-free output; it never reports success with output missing, repeated or reordered.",
  ["fault_sequences","crash_points","configurations"],
  "every sequence of short, interrupted and failing writes and entropy reads at every point of the run",
  "No test runs the program, let alone with a failing standard output or random source.",
  [G+"bin/sample_s2.rs"],
  [("println! through std's line-buffered stdout: retries interrupted and short writes, panics on errors",G+"bin/sample_s2.rs main"),
   ("rand::rng() seeded from the operating system",G+"bin/sample_s2.rs main")],
  ["bytes accepted on standard output, exit status"])
p("C08","Corrupted coordinates are contained: bounded, no panic, others unaffected",
  "When records of a coordinate stream are corrupted - flipped bits, NaN, infinities, huge or denormal values, torn or swapped fields, zeroed or duplicated records - every conversion, projection, unprojection, CRS transformation, distance and geodesic call on a corrupted record still returns (a value or an error) within a bounded number of steps and without panicking. Every intact record before and after it gets exactly the answer it gets in an uncorrupted stream.",
  ["fault_sequences","inputs","histories"],
  "every corruption of the coordinates of every record, on every built-in CRS, projection and direct or inverse geodesic solver that is implemented",
  "The tests feed only good coordinates; iteration bounds, NaN handling and panics on damaged input are never exercised.",
  [G+"projections/cyl/transverse_mercator.rs",G+"projections/cyl/mercator.rs",G+"projections/cyl/web_mercator.rs",G+"geodesy/geodetic_datum.rs",G+"geodesy/geodesics/",G+"crs/",G+"cs/",G+"transformations/xyz.rs"],
  [("closed formulas or iteration caps in every solver",G+"geodesy/geodesics/vincenty.rs, "+G+"geodesy/geodesics/rapp.rs, "+G+"projections/cyl/transverse_mercator.rs"),
   ("errors instead of panics for non-convergence",G+"geodesy/geodesics/mod.rs GeodesicSolver, "+G+"projections/mod.rs ProjectionError")],
  ["return values; number of executed steps"])
p("C09","Repeated use never accumulates memory, whatever calls fail or panic",
  "In a process that keeps making public calls and drops their results - with ever new arguments and definitions, from threads that come and go, with calls that fail, panic or are abandoned half way through a builder chain - the memory retained by the library does not grow with the number of calls made.",
  ["histories","fault_sequences","schedules"],
  "every arbitrarily long history of calls whose results are dropped, including failing and panicking ones and short-lived threads",
  "Tests are short and never measure retained memory.",
  [G+"geodesy/",G+"crs/",G+"projections/",G+"geometry/",G+"transformations/xyz.rs"],
  [("ownership: no global registries, caches or leaked allocations; boxed projections and segments dropped with their owner","whole crate")],
  ["live heap bytes between calls"])
NA_WHY="A handful of sampled inputs cannot settle a statement over all real inputs."
def na(id,title,stmt,over,q,files,mech):
    p(id,title,stmt,over,q,NA_WHY,files,mech)
na("N01","Geographic and geocentric coordinates round-trip","For every datum and every point not absurdly close to the Earth's centre, converting geodetic coordinates to geocentric and back (and the reverse) returns the original point within the documented tolerance.",["inputs","configurations"],"all points, ellipsoids and prime meridians",[G+"geodesy/geodetic_datum.rs"],[("Vermeille 2004 closed form",G+"geodesy/geodetic_datum.rs xyz_to_llh")])
na("N02","The prime meridian is the origin of longitudes of its datum","Longitudes of a datum are counted from its prime meridian, on every ellipsoid including spheres.",["inputs","configurations"],"all datums and points",[G+"geodesy/geodetic_datum.rs",G+"geodesy/prime_meridian.rs"],[("change of longitude origin",G+"geodesy/geodetic_datum.rs llh_to_xyz")])
na("N03","Projections round-trip in their domain","For every projection and every point in its domain of validity, unprojecting the projected point gives it back within the documented tolerance, and the height passes through.",["inputs","configurations"],"all projection parameters and points",[G+"projections/"],[("forward and inverse formulas",G+"projections/cyl/")])
na("N04","Projections follow their EPSG definitions","Every projection yields the easting and northing its EPSG method defines; UTM zones have their standard central meridians and hemisphere offsets.",["inputs","configurations"],"all projection parameters and points",[G+"projections/cyl/"],[("EPSG guidance 7-2 formulas",G+"projections/cyl/")])
na("N05","Direct geodesics end where the geodesic ends","Solving the direct problem gives the end point and azimuth of the geodesic within each solver's accuracy.",["inputs","configurations"],"all start points, azimuths, distances, ellipsoids",[G+"geodesy/geodesics/"],[("Vincenty, Rapp, Karney series",G+"geodesy/geodesics/")])
na("N06","Inverse geodesics agree with direct ones","Whenever the inverse problem is solved, following the returned azimuth for the returned length arrives at the second point.",["inputs","configurations"],"all point pairs and ellipsoids",[G+"geodesy/geodesics/"],[("Vincenty and Rapp iterations",G+"geodesy/geodesics/")])
na("N07","Angles, longitudes, latitudes and azimuths stay in their documented range","Every constructor and operation yields longitudes in [-pi, pi], latitudes in [-pi/2, pi/2] and azimuths in (-pi, pi].",["inputs"],"all finite inputs and operation sequences",[G+"cs/geodetic.rs",G+"cs/azimuth.rs",G+"quantities/angle.rs"],[("wrapping and clamping",G+"quantities/angle.rs")])
na("N08","Axes and units convert back and forth without loss","Normalising coordinates and denormalising them again gives the original coordinates within rounding, for every axes order, direction and unit.",["inputs","configurations"],"all axes, units and coordinates",[G+"cs/",G+"units/",G+"quantities/"],[("normalize and denormalize",G+"cs/geodetic.rs, "+G+"cs/cartesian/")])
na("N09","Approximate equality is per-axis distance within tolerance","Two coordinates are approximately equal exactly when each axis differs by at most that axis's tolerance.",["inputs"],"all coordinate pairs and tolerances",[G+"crs/mod.rs",G+"cs/"],[("abs_diff_eq per axis",G+"crs/mod.rs approx_eq")])
na("N10","CRS distance behaves as a distance","The distance between two positions is non-negative, symmetric and zero for equal positions.",["inputs","configurations"],"all CRSs and position pairs",[G+"crs/"],[("cartesian or geodesic distance",G+"crs/")])
na("N11","Datum shifts invert each other","Applying a translation or Helmert shift to the reference and back gives the original point within the accuracy of the method.",["inputs","configurations"],"all parameters and points",[G+"transformations/xyz.rs"],[("GeocentricTranslation, Helmert7Params",G+"transformations/xyz.rs")])
na("N12","Ellipsoids, prime meridians and datums are valid and compare by definition","Constructors reject impossible shapes, derived quantities agree with each other, and equality compares the definition.",["inputs","configurations"],"all parameters",[G+"geodesy/"],[("constructor assertions",G+"geodesy/ellipsoid.rs")])
na("N13","Numeric kernels compute their formulas","Polynomial evaluation, complex arithmetic, Clenshaw summation, remainder and compensated sums equal the mathematical value within rounding.",["inputs"],"all arguments",[G+"math/"],[("Horner, Clenshaw, two-sum",G+"math/")])
na("N14","Circle intervals implement set semantics","Interval containment, emptiness and fullness agree with the set of angles the interval stands for.",["inputs"],"all intervals and angles",[G+"cs/s1.rs"],[("inverted-interval representation",G+"cs/s1.rs")])
na("N15","Degrees-minutes-seconds rendering denotes the same angle","The degrees, minutes and seconds of an angle are in range and denote that angle within the printed precision.",["inputs"],"all angles",[G+"quantities/angle.rs",G+"cs/"],[("dms decomposition",G+"quantities/angle.rs dms")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
