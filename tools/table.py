"""The properties: one entry each; properties.jsonl and MANIFEST.json are
generated from this table (tools/gen.py)."""

KEP = 'pyorb/kepler.py'
ORB = 'pyorb/orbit.py'
UNI = 'pyorb/unit.py'
CON = 'pyorb/const.py'

T = []


def P(id, title, statement, over, text, why, files, mech, note,
      technique=None):
    T.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, note=note,
                  technique=technique))


SMP = ('The existing tests evaluate a few hand-picked orbits (often on a '
       'grid of one element); the statement is over a continuum of inputs: ')

P('K01', 'Cartesian states computed from elements obey two-body dynamics',
  'For every ellipse, circle, parabola or hyperbola given by Keplerian '
  'elements (true anomaly inside the asymptotes of open orbits) and every '
  'positive gravitational parameter, the Cartesian state it is converted to '
  'has the distance, specific orbital energy, angular momentum and radial '
  'velocity that the size, shape and true anomaly prescribe.',
  ['inputs'], 'all sizes > 0, e = 0, 1e-8 <= e < 1, e = 1, e > 1, all '
  'orientations and anomalies, each also several turns away, all mu > 0',
  SMP + 'every size, shape, anomaly and gravitational parameter.',
  [KEP], [('kep_to_cart', KEP), ('orbital_distance', KEP),
          ('orbit_total_angular_momentum', KEP),
          ('parabolic_total_angular_momentum', KEP)],
  'conserved quantities compared with closed forms over the reals')

P('K02', 'Orientation of the converted orbit follows the documented angles',
  'The position and velocity computed from Keplerian elements are the '
  'in-plane conic (periapsis on +x, motion towards +y) rotated by the '
  'argument of periapsis about z, then by the inclination about x, then by '
  'the longitude of the ascending node about z. This holds for every '
  'combination of angles, also for zero and 180 degree inclination.',
  ['inputs'], 'all elements of all conics, mu > 0, all orientations, the '
  'angles also several turns away',
  SMP + 'all three rotation angles at once.',
  [KEP], [('kep_to_cart', KEP), ('euler_rotation_matrix', KEP)],
  'all six state components compared with the rotated conic over the reals')

P('K03', 'Size and eccentricity recovered from any Cartesian state',
  'For every bound, parabolic or hyperbolic Cartesian state with nonzero '
  'angular momentum the computed eccentricity is that of the orbit and the '
  'size element is the (positive) semi-major axis magnitude mu/|2 energy|, '
  'or the periapsis distance for a parabola.',
  ['inputs'], 'all states on all conics, general, planar and retrograde '
  'planar, mu > 0', SMP + 'all states of each conic.',
  [KEP], [('cart_to_kep', KEP)],
  'states are parametrised by textbook elements; every branch explored')

P('K04', 'Angles recovered from a Cartesian state are in the right quadrant',
  'For every inclined, eccentric Cartesian state the computed inclination, '
  'argument of periapsis, longitude of the ascending node and true anomaly '
  'are those of the orbit, in all quadrants. Inclination lies in [0, pi] and '
  'the other angles in [0, 2 pi].',
  ['inputs'], 'all states on ellipses (e >= 1e-8), parabolas and hyperbolas '
  'with inclination away from 0 and pi by 1e-8',
  SMP + 'all 64 quadrant combinations of the angles and their boundaries.',
  [KEP], [('cart_to_kep', KEP)],
  'each quadrant combination is a path of the real code, decided separately')

P('K05', 'Elements and Cartesian states convert back and forth losslessly',
  'Converting Keplerian elements of a general ellipse, parabola or hyperbola '
  'to a Cartesian state and back returns the same size, shape and angles '
  '(modulo a full turn). Converting a Cartesian state to elements and back '
  'returns the same state.',
  ['inputs'], 'all general ellipses, parabolas, hyperbolas; degenerate '
  'orbits for the state -> elements -> state direction; mu > 0',
  SMP + 'round trips over all elements, with boundaries of the arccos '
  'branches.', [KEP], [('cart_to_kep', KEP), ('kep_to_cart', KEP)],
  'the composition of both real functions is executed symbolically')

P('K06', 'Circular and planar orbits get well-defined, faithful elements',
  'For a Cartesian state on a circular orbit the argument of periapsis is '
  'zero, and on a planar (prograde or retrograde) orbit the longitude of the '
  'ascending node is zero. The remaining angles describe the same state: '
  'converting these elements back gives the state again.',
  ['inputs'], 'circular, planar prograde and planar retrograde states of all '
  'conics, at every position on the orbit',
  SMP + 'degenerate orbits at every position; tests visit a few.',
  [KEP], [('cart_to_kep', KEP), ('e_lim/i_lim', KEP)],
  'exactly circular/planar states only; the neighbourhood below the '
  'thresholds is outside')

P('K07', 'True and eccentric anomaly are related by the geometric formulas',
  'For every ellipse, parabola and hyperbola the eccentric anomaly computed '
  'from a true anomaly describes the same point on the conic, and the reverse '
  'conversion does the same, so that the two are inverse to each other '
  '(modulo a full turn for the true anomaly and closed orbits). Elliptic '
  'eccentric anomalies and all true anomalies are given in [0, 2 pi].',
  ['inputs'], 'all eccentricities 0 <= e < 1, e = 1, e > 1, all anomalies '
  '(inside the asymptotes of open orbits)',
  SMP + 'two-parameter families including negative anomalies of open orbits.',
  [KEP], [('true_to_eccentric', KEP), ('eccentric_to_true', KEP)],
  'cos/sin (cosh/sinh) of the results compared with the conic formulas')

P('K08', "Eccentric and mean anomaly satisfy Kepler's equation",
  'The mean anomaly computed from an eccentric anomaly is E - e sin E for '
  'ellipses, e sinh E - E for hyperbolas and E + E^3/3 for parabolas (Barker). '
  'The eccentric anomaly computed from any mean anomaly, including values '
  'outside one turn, solves the same equation for that mean anomaly once the '
  'iterative solver has converged.',
  ['inputs'], 'all e >= 0 and all anomalies; the iterative solver is '
  'represented by its contract (K10)',
  SMP + 'all eccentricities and anomalies, arrays mixing the three conics.',
  [KEP], [('eccentric_to_mean', KEP), ('mean_to_eccentric', KEP)],
  'assume-guarantee with K10; convergence of the solver is not claimed')

P('K09', 'True and mean anomaly conversions compose the two legs',
  'The mean anomaly computed from a true anomaly is that of the '
  'corresponding eccentric anomaly, and the true anomaly computed from a mean '
  'anomaly lies on the orbit where Kepler\'s equation puts it, for ellipses, '
  'parabolas and hyperbolas alike. Going from true to mean anomaly and back '
  'returns the same position.',
  ['inputs'], 'as K07 and K08', SMP + 'all eccentricities and anomalies.',
  [KEP], [('true_to_mean', KEP), ('mean_to_true', KEP)],
  'iterative solver by contract (K10)')

P('K10', "The Kepler solver stops only at a solution or at its iteration cap",
  "The iterative solver of Kepler's equation returns a value whose residual "
  'is below the requested tolerance, unless it has used up the allowed number '
  'of iterations; the returned count is the number of iterations made and is '
  'never above that cap (when the cap is at least one). A starting value that '
  'already satisfies the tolerance is returned unchanged with count zero.',
  ['inputs', 'configurations'], 'all M, e < 1 and e > 1, starting values, '
  'tolerances > 0; up to the stated number of iterations',
  'The tests run the solver on sampled (M, e) with one tolerance and only '
  'look at converged results.', [KEP], [('laguerre_solve_kepler', KEP)],
  'bounded unrolling of the real loop; trigonometric values of the iterates '
  'are arbitrary points of the unit circle (hyperbola), an over-approximation')

P('K11', 'Equinoctial and Keplerian elements convert by the stated definitions',
  'The equinoctial elements computed from Keplerian ones are h = e sin(w+O), '
  'k = e cos(w+O), p = tan(i/2) sin O, q = tan(i/2) cos O and the longitude '
  'w + O + anomaly in [0, 2 pi], with the size unchanged. The reverse '
  'conversion inverts this for all orbits with inclination below 180 degrees, '
  'circular and planar ones included (modulo a full turn, and up to the '
  'angles that such an orbit does not define).',
  ['inputs'], 'all a > 0, 0 <= e, 0 <= i < pi, all angles',
  SMP + 'degenerate and general elements over all quadrants.',
  [KEP], [('kep_to_equi', KEP), ('equi_to_kep', KEP)],
  'both directions executed symbolically')

P('K12', 'Equinoctial elements and Cartesian states agree via mean longitude',
  'For every elliptic state the equinoctial elements computed from the '
  'Cartesian state are those of the orbit with the mean longitude as sixth '
  'element. The Cartesian state computed from equinoctial elements lies on '
  'the orbit they describe at the position the mean longitude prescribes.',
  ['inputs'], 'elliptic orbits e = 0 and 1e-8 <= e < 1, all orientations '
  'below 180 degrees inclination, all positions, mu > 0',
  SMP + 'the whole chain of conversions over all elliptic orbits.',
  [KEP], [('cart_to_equi', KEP), ('equi_to_cart', KEP)],
  'iterative solver by contract (K10)')

P('K13', 'The degrees flag changes the unit of angles and nothing else',
  'Every conversion and helper that takes a degrees flag gives, with angles '
  'in degrees, exactly the results it gives for the same angles in radians, '
  'with angular outputs expressed in degrees and every other output the same.',
  ['inputs', 'configurations'], 'all functions with the flag, all angle '
  'inputs, all conics',
  'Tests check the flag for a few functions at a few values; the statement '
  'covers every function with the flag on every branch.',
  [KEP], [('degrees parameters', KEP)], 'differential: both calls symbolic')

P('K14', 'Vectorised conversions treat every column on its own',
  'Converting many orbits in one call gives for every column the result of '
  'converting that column alone, whatever mixture of ellipses, parabolas, '
  'hyperbolas, circular and planar orbits the other columns hold. Single '
  'vectors, scalars and one-column arrays give the same values.',
  ['inputs', 'configurations'], 'mixtures of 2-3 columns of all conic and '
  'plane kinds, per-column gravitational parameters',
  'Mask and broadcast handling depends on the mixture of orbit kinds in one '
  'call; the tests hold uniform batches mostly.', [KEP],
  [('boolean masks', KEP), ('scalar/array branches', KEP)],
  'differential between batch and single calls over symbolic columns')

P('K15', 'Conversions never modify their arguments',
  'No conversion or helper function changes the arrays it is given, neither '
  'their values nor their shape, and repeating a call with the same arguments '
  'gives the same result.', ['inputs', 'histories'],
  'all conversion functions, both input shapes, radians and degrees, all '
  'conics', 'Tests do not look at their inputs after a call.', [KEP],
  [('in-place reshaping and scaling', KEP)],
  'arrays compared with snapshots taken before the call on every path')

P('K16', 'Radius, speed, period and angular momentum helpers are consistent',
  'The helper formulas agree with the state of the orbit: distance on '
  'ellipse, parabola and hyperbola, speed at a radius (vis-viva), period and '
  'semi-major axis as inverse functions with n^2 a^3 = mu, total angular '
  'momentum, and the true anomaly of the asymptote (cos = -1/e).',
  ['inputs'], 'all orbits of each conic, mu > 0',
  SMP + 'each formula over all orbits, tied to the converted state.', [KEP],
  [('orbital_speed', KEP), ('orbital_period', KEP), ('semi_major_axis', KEP),
   ('elliptic_radius', KEP), ('parabolic_radius', KEP),
   ('hyperbolic_radius', KEP), ('true_of_the_asymptote', KEP)],
  'closed forms over the reals')

P('K17', 'Rotation matrices are proper rotations and compose to Z-X-Z',
  'The elementary rotation matrices are the right-handed rotations about '
  'their axis, and the Euler matrix equals Rz(node) Rx(inclination) '
  'Rz(argument of periapsis), is orthogonal with determinant one, and for '
  'vector arguments holds the matrix of each entry.', ['inputs'],
  'all angles, scalars and vectors, radians and degrees',
  SMP + 'three angles at once.', [KEP],
  [('rot_mat_x/y/z', KEP), ('euler_rotation_matrix', KEP)],
  'all entries compared over the reals')

P('K18', 'Stumpff functions satisfy their defining relations',
  'For every real argument the four Stumpff functions satisfy '
  'c0 = 1 - x c2, c1 = 1 - x c3 and the double-angle and Pythagorean '
  'relations of the trigonometric (x > 0) and hyperbolic (x < 0) forms, with '
  'values 1, 1, 1/2, 1/6 at zero. Arrays give the value of each entry.',
  ['inputs'], 'all real x, arrays mixing signs',
  SMP + 'all three sign branches.', [KEP], [('stumpff0..3', KEP)],
  'numerical cancellation close to zero is outside (exact reals)')

P('K19', 'Elements reported as equivalent describe the same orbit and position',
  'Whenever two element vectors are reported equivalent, the states they '
  'describe agree to the comparison tolerance: differing size, shape, '
  'inclination, node, periapsis or position is never reported as equivalent. '
  'Elements of circular orbits, or of orbits of zero inclination, that differ '
  'only in how the undefined angles are split are reported equivalent.', ['inputs'],
  'pairs of element vectors; general, circular and planar',
  'There is no test of this function over pairs of orbits.', [KEP],
  [('kep_equivalent', KEP)], 'completeness only for equal angle sums (no '
  'wrap-around by full turns)')

P('K20', 'Each iteration of the Kepler solver is a Laguerre step',
  "One iteration of the solver moves the estimate by the Laguerre correction "
  "of Kepler's equation for the configured degree, with the sign of the root "
  'chosen so that the denominator has the larger magnitude. This holds for '
  'the elliptic and hyperbolic equation.', ['inputs', 'configurations'],
  'all M, e, estimates; degrees 2..6',
  'Tests accept any convergent iteration; a wrong derivative only slows or '
  'breaks convergence for rare (M, e).', [KEP],
  [('laguerre_solve_kepler', KEP)], 'one symbolic iteration')

P('K21', "Starting guesses respect the symmetry of Kepler's equation",
  'The starting guess of the hyperbolic equation is an odd function of the '
  'mean anomaly, and the one of the elliptic equation is symmetric about half '
  'a turn: the guess for 2 pi - M is 2 pi minus the guess for M. Array '
  'arguments give the guess of each entry.', ['inputs'],
  'all M (0 <= M <= 2 pi for ellipses) and e',
  'Tests check convergence from the guesses for sampled positive anomalies.',
  [KEP], [('kepler_guess', KEP)], 'log is an uninterpreted function')

P('K22', 'Unknown inputs give unknown results, and only for their own orbit',
  'A NaN in a state, element, equinoctial element, gravitational parameter '
  'or anomaly makes every converted quantity that depends on it NaN: never a '
  'made-up number or uninitialised memory. Other orbits or entries of the '
  'same array are converted as if the unknown one were not there.',
  ['inputs'], 'every position of the NaN, every conic, single values and '
  'columns of arrays; the remaining inputs arbitrary',
  'Orbit objects hold NaN for everything not yet set, but no test converts '
  'one; results from uninitialised memory differ from run to run.', [KEP],
  [('cart_to_kep', KEP), ('kep_to_cart', KEP), ('equi_to_kep', KEP),
   ('true_to_eccentric', KEP), ('stumpff0', KEP)],
  'NaN is modelled as a value every comparison with which is false; '
  'uninitialised memory as an arbitrary number')

P('K23', 'Integer arrays are converted like arrays of the same real numbers',
  'States, elements, anomalies, angles, eccentricities, gravitational '
  'parameters and Stumpff arguments given as integer arrays convert to the '
  'same values as floating point arrays holding the same numbers: results '
  'are not truncated and no call fails.', ['inputs', 'configurations'],
  'all integer values within the stated ranges, single orbits and arrays, '
  'each argument integer or not, radians and degrees',
  'Tests pass floating point arrays; np.array([1, 2, 3]) is what users type.',
  [KEP], [('kep_to_cart', KEP), ('cart_to_kep', KEP), ('kep_to_equi', KEP),
          ('mean_to_eccentric', KEP)],
  'integer arrays are modelled by truncation of what is stored in them')

P('K24', 'Rounding never turns a valid input into NaN or infinity',
  'Whatever the rounding errors of floating point arithmetic, the '
  'eccentricity and the angles computed from a state with angular momentum, '
  'the states and elements computed from valid elements, the anomalies of '
  'closed orbits, the solutions of the Kepler equation (parabolas: for every '
  'finite mean anomaly) and the derived quantities are finite numbers. '
  'This includes apsides, nodes, circles, coordinate planes and near '
  'parabolas, where an exact value lies at the end of the domain of an '
  'arc cosine or root.', ['inputs'],
  'all states (general: thorough), also in coordinate planes, all valid '
  'elements, all rounding errors; 1 to 2 solver iterations; no overflow or '
  'underflow; the size of a near parabolic state and open orbits at the '
  'asymptote are excluded',
  'A generic test orbit never meets the rounding error that leaves a domain.',
  [KEP], [('cart_to_kep', KEP), ('mean_to_eccentric', KEP),
          ('true_to_eccentric', KEP), ('kepler_guess', KEP)],
  'rounded results are variables bounded by facts every correctly rounded '
  'operation satisfies; models are confirmed on special geometries')

P('O01', 'With direct update both descriptions always describe the same orbit',
  'With direct updates on, after construction and after every sequence of '
  'setters, updates, additions, deletions and type changes, the Cartesian '
  'state and the Keplerian elements read from an orbit object describe the '
  'same orbit and position. The values last written are read back unchanged.',
  ['histories', 'inputs', 'configurations'],
  'histories of bounded length over all public mutators, symbolic values, '
  'all anomaly types, radians and degrees',
  'Tests exercise single setters; the statement is over sequences of '
  'operations and configurations.', [ORB],
  [('property setters', ORB), ('update', ORB), ('calculate_cartesian', ORB),
   ('calculate_kepler', ORB)],
  'conversions are uninterpreted inverse functions, so coherence is decided '
  'independently of their formulas (K01-K09 decide those)')

P('O02', 'With lazy update the last write wins and reads are consistent',
  'With direct updates off and automatic updates on, whatever is read after '
  'any sequence of writes is the state that would result from applying the '
  'writes one after another with immediate conversion: the description '
  'written last is read back unchanged and the other one describes the same '
  'orbit. Switching the update mode between writes loses none of them.',
  ['histories', 'inputs', 'configurations'],
  'bounded histories of setters, mode switches and updates interleaved with reads',
  'Stale-flag bugs need a specific order of writes and reads on both '
  'descriptions; tests hold one or two such orders.', [ORB],
  [('calculated flags', ORB), ('_cart_check/_kep_check', ORB)],
  'as O01; compared with an eagerly updated object')

P('O03', 'With automatic conversion disabled nothing is converted unasked',
  'With direct and automatic updates off, setting one description never '
  'changes the other one; only an explicit request to calculate does, and it '
  'then makes the two agree.', ['histories', 'inputs'],
  'bounded histories of all setters in manual mode',
  'Tests check one setter in this mode.', [ORB],
  [('direct_update/auto_update', ORB)], 'as O01')

P('O04', 'Operations on selected orbits leave the other orbits untouched',
  'Updating, adding or deleting selected orbits of an object changes only '
  'those: all other orbits keep their mass, Cartesian state, elements and '
  'order, and the number of orbits changes by exactly the number added or '
  'deleted.', ['histories', 'inputs', 'configurations'],
  'objects of 3 orbits, every index kind (integer, slice, list, mask), all '
  'update modes', 'The tests update or delete one index in one mode.',
  [ORB], [('update(inds)', ORB), ('add', ORB), ('delete', ORB)], 'as O01')

P('O05', 'Copies, selections and iteration give faithful independent objects',
  'A copy, a selection or an item of an iteration has the settings, masses, '
  'states and elements of the orbits it was taken from, also when conversions '
  'are still pending. Changing either object afterwards never affects the '
  'other, and nested iterations over one object do not disturb each other.',
  ['histories', 'inputs', 'configurations'],
  'objects of 3 orbits, all index kinds, all update modes, a write before and '
  'after the copy', 'Aliasing and pending-conversion state show only in '
  'particular histories.', [ORB],
  [('__getitem__', ORB), ('copy', ORB), ('__iter__', ORB)], 'as O01')

P('O06', 'Values read from an orbit are independent copies',
  'Modifying an array obtained from any property of an orbit object never '
  'changes the orbit, and modifying an array after it was written to an orbit '
  'does not either.', ['histories', 'inputs'],
  'every array-valued property, all update modes',
  'Tests check a few properties only.', [ORB], [('property getters', ORB)],
  'as O01')

P('O07', 'Rejected operations leave the orbit unchanged',
  'Writing to read-only elements, by any setter or update, raises an error '
  'and leaves the object unchanged, while reading stays possible; so do '
  'updates that mix both descriptions, unknown anomaly types and mass updates '
  'that are not allowed.', ['histories', 'inputs', 'configurations'],
  'every setter and update keyword, both read-only flags, all update modes',
  'Tests check the error of a few setters and never the state after it.',
  [ORB], [('kepler_read_only', ORB), ('cartesian_read_only', ORB)], 'as O01')

P('O08', 'Changing the anomaly type keeps the physical state',
  'Changing which anomaly an orbit object uses converts the stored anomaly '
  'and leaves the position on the orbit, the Cartesian state and all other '
  'elements as they were, for any sequence of changes. The anomaly read '
  'afterwards is the requested one, and each of the three anomalies reads the '
  'same before and after.', ['histories', 'inputs', 'configurations'],
  'all ordered sequences of up to two type changes, all update modes, radians '
  'and degrees', 'Tests check single changes from one start type.', [ORB],
  [('type setter', ORB), ('calc_*_anomaly', ORB)], 'as O01')

P('O09', 'Propagation advances the mean anomaly and keeps the orbit',
  'Propagating by dt changes the mean anomaly by mean motion times dt (modulo '
  'a full turn on closed orbits) and leaves all other elements unchanged; the '
  'Cartesian state read afterwards is that of the advanced anomaly. '
  'Propagating by dt1 and then dt2 equals propagating by their sum, and on '
  'closed orbits a full period changes nothing.',
  ['inputs', 'histories', 'configurations'],
  'all dt, ellipses, parabolas and hyperbolas, all anomaly types and update '
  'modes', 'Tests propagate few orbits by few time steps.', [ORB],
  [('propagate', ORB), ('mean_motion', ORB)], 'as O01')

P('O10', 'Derived quantities agree with the elements and state they come from',
  'Periapsis and apoapsis distance, period, mean motion, speed, velocity, the '
  'three anomalies, mean longitude and equinoctial elements read from an '
  'orbit object are those of its current elements or state, in any update '
  'mode. Setting the period or mean motion of any orbit, an anomaly, the '
  'velocity or the equinoctial elements changes the orbit accordingly, so '
  'that the set value is read back, and leaves the other elements as they '
  'were.', ['inputs', 'histories', 'configurations'],
  'all conics, all anomaly types, radians and degrees, all update modes',
  'Tests check getters of single ellipses and hardly any of the setters.',
  [ORB], [('derived properties', ORB)], 'as O01')

P('O11', 'The gravitational parameter is G (M0 + m) of each single orbit',
  'Every conversion made by an orbit object uses the gravitational parameter '
  'G (M0 + m) with the mass of the very orbit converted, for any selection of '
  'orbits and any mode.', ['inputs', 'configurations'],
  'two or three orbits with different symbolic masses, G and M0, all update '
  'modes and index selections', 'Tests use massless or equal-mass orbits '
  'mostly.', [ORB], [('calculate_cartesian', ORB), ('calculate_kepler', ORB),
                     ('period', ORB), ('speed', ORB)], 'as O01')

P('O12', "Solver options given to an orbit object are used and kept",
  'The solver options given to an orbit object are those used by every '
  'conversion of mean anomalies it makes, also in copies, selections and '
  'iterated items and after any change of type or mode. Objects without own '
  'options use the defaults, and objects never share options.',
  ['configurations', 'histories'],
  'two orbits, all anomaly types and update modes, several sets of options',
  'Options only change the result by the accuracy of the iteration, which '
  'tests of default accuracy cannot see.', [ORB],
  [('solver_options', ORB), ('calc_true_anomaly', ORB),
   ('calculate_cartesian', ORB)],
  'applications with crude options are distinct uninterpreted functions')

P('O13', 'Orbits can be given element by element, in any order',
  'An orbit whose six elements (or state components) are set one at a time, '
  'in any order and by any setter or update, equals the orbit constructed '
  'with all of them at once. While elements are missing the other '
  'description stays unknown and nothing is made up.',
  ['histories', 'inputs', 'configurations'],
  'all update modes, both descriptions, several orders and partitions',
  'Tests construct orbits with all elements at once.', [ORB],
  [('__init__', ORB), ('allocate', ORB), ('update', ORB),
   ('property setters', ORB)], 'as O01')

P('O14', 'Printing an orbit shows its current elements and state',
  'The text of a single orbit lists all six Keplerian elements and all six '
  'state components with the values that reading them gives, in every update '
  'mode and after any operation, also while conversions are pending. The text '
  'of several orbits states their number.',
  ['histories', 'inputs', 'configurations'],
  'every single operation before printing, all update modes and types',
  'Tests print orbits without looking at the text.', [ORB],
  [('__str__', ORB)], 'as O01; printed numbers are compared before rounding')

P('U01', 'The gravitational constant scales correctly with the units',
  'The gravitational constant for given length, mass and time units is the SI '
  'value times mass times time squared over length cubed, for every named '
  'unit (in any letter case) and every positive numeric unit, and for any mix '
  'of both. Unknown unit names and types are rejected. The constants the '
  'package exports have their published values.', ['inputs'],
  'all combinations of named and numeric units, all positive numeric values',
  'Tests check a handful of combinations.', [UNI], [('get_G', UNI)],
  'named units enumerated, numeric units symbolic')

P('U02', 'The angle unit decorator converts exactly the declared arguments',
  'A function wrapped for angle units receives the declared positional and '
  'keyword arguments converted from degrees to radians and returns the '
  'declared outputs converted to degrees when degrees are requested, by '
  'keyword or by default. All other arguments and outputs pass through '
  'unchanged, and nothing is converted otherwise.',
  ['inputs', 'configurations'],
  'all declarations over up to 3 arguments and outputs, all values',
  'There is no test of the decorator over its configurations.', [UNI],
  [('angle_units', UNI)], 'wrapped function records its arguments')

P('U03', 'Constants cannot be changed or deleted',
  'Assigning a different value to any physical or mathematical constant or '
  'deleting it raises an error and leaves the constant as it was. Assigning '
  'the value it already has is accepted.', ['inputs', 'histories'],
  'every constant, every assigned value',
  'There is no test; the statement is over all values.', [CON],
  [('_const', CON)], 'assigned value symbolic')
