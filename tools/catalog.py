"""The properties, in one place: properties.jsonl and MANIFEST.json are generated from this."""

P = []


def prop(id, title, statement, over, over_text, why, files, mechanism, state=None, observe=None,
         note=''):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = state
    if observe:
        anchors['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={'over': over, 'text': over_text},
                   why_tests_cant=why, anchors=anchors), note))


prop('P01', 'Run-time settings: documented defaults, overrides take effect at use',
     'Every documented run-time setting has its documented default, and an environment variable of '
     'the same name overrides it with a value of the right type (a switch is off when the text is empty and on otherwise) at whatever moment it is set, also '
     'after the program has been imported; clearing the variable restores the default. A numeric '
     'setting overridden with text that is not a number is rejected with an error, and reading one '
     'setting never changes another.',
     ['configurations', 'histories'],
     'every sequence of setting, clearing and reading any of the documented variables',
     'The repository has no test of the settings; defaults and override timing interact over '
     'histories that a sample cannot cover.',
     ['environment.py', 'common/utils.py'],
     [('documented defaults and the lookup with type conversion', 'environment.py get'),
      ('boolean settings', 'common/utils.py getboolenv')],
     observe=['value returned by each lookup', 'which quadrature and grid is used after an override'])

prop('P02', 'Natural units and physical constants are consistent in any base units',
     'Every derived unit and every physical constant equals its definition in terms of the base '
     'units, whatever values the base units take, so that every dimensionless combination is '
     'independent of that choice. With the default base units hbar = c = k_B = 1, every energy, '
     'time, length, temperature, mass and force unit has the value of the real unit expressed in '
     'powers of the electronvolt, and rescaling the electronvolt rescales each by its mass '
     'dimension; resetting the base units without a seed leaves the global random number generator '
     'as it was.',
     ['inputs', 'configurations'],
     'every choice of base units and of the electronvolt',
     'The unit tests compare a handful of conversions at the default base units; an inconsistent '
     'unit only shows when the base units vary.',
     ['numericalunits.py', 'common/__init__.py'],
     [('derived units and constants', 'numericalunits.py set_derived_units_and_constants'),
      ('natural units of the program', 'common/__init__.py UNITS'),
      ('physical constants', 'common/__init__.py CONST')])

prop('P03', 'The cosmological clock obeys the Friedmann equation',
     'A run starts at the given temperature T with scale factor m/T (m is the normalisation mass, 1 MeV by default), so that aT = m, at the given '
     'time, and its first and every later step has the configured size in ln a (logarithmic) or in x = a m (linear); omitting the step that the selected kind needs is an error. '
     'Every update sets the scale factor to x/m, the temperature to aT/a, the expansion rate to sqrt(8 pi rho/3)/M_Planck, and adds '
     '(1 - a_old/a)/H to the age, which starts at 1/(2H) when derived from the energy density and stays so for radiation. The reported effective number of neutrinos is '
     '(rho - rho_photon) over the energy density of one neutrino species at T/1.401, and the entropic degrees of freedom count every species in '
     'equilibrium lighter than T, fermions with weight 7/8.',
     ['inputs', 'histories', 'configurations'],
     'every initial temperature, step size of both kinds and every history of energy densities',
     'The clock is only exercised by full cosmological runs that need compiled extensions and '
     'hours; an error in one recurrence accumulates slowly.',
     ['common/__init__.py'],
     [('initialisation and update of the parameters', 'common/__init__.py Params'),
      ('Friedmann rate', 'common/__init__.py Params.update'),
      ('N_eff and degrees of freedom', 'common/__init__.py Params')],
     state=['scale factor, time, temperature, expansion rate'])

prop('P04', 'Momentum grids are ordered, start at zero, and have the requested size',
     'Every momentum grid has exactly the requested number of points and the requested upper '
     'momentum, starts at zero, is strictly increasing, '
     'and has equal intervals (linear) or intervals that grow by a factor 1.2 (logarithmic), with sizes taken from the '
     'arguments, else from the settings. The grid for a decaying particle ends at the momentum that its decay products have after the configured number of lifetimes and has the spacing '
     'that resolves their spectrum, and building one grid never changes another.',
     ['inputs', 'configurations'],
     'every number of points, upper momentum and particle lifetime',
     'The unit test looks at one logarithmic grid; spacing errors need other sizes and settings.',
     ['common/__init__.py'],
     [('linear, logarithmic and heuristic grids', 'common/__init__.py LinearSpacedGrid, LogSpacedGrid, HeuristicGrid')])

prop('P05', 'Quadratures integrate polynomials exactly over any region',
     'Fixed-order one- and two-dimensional quadratures return the exact integral of every polynomial '
     'whose degree the order supports, over intervals of any orientation and regions whose '
     'inner bounds depend on the outer variable; they are linear, additive over adjacent intervals '
     'and change sign when the bounds are swapped. The half-line rule is exact for polynomials times the '
     'exponential weight, the paired variant returns both integrals at once, and the '
     'tabulated Simpson rule is exact for parabolas on unevenly spaced points.',
     ['inputs', 'configurations'],
     'every polynomial integrand, bounds, and order',
     'Weights and nodes that are slightly wrong or mapped to the wrong interval give plausible '
     'numbers on any fixed sample.',
     ['common/integrators/__init__.py'],
     [('Gauss-Legendre, Gauss-Laguerre, adaptive and double quadratures', 'common/integrators/__init__.py'),
      ('nodes and weights', 'common/integrators/__init__.py GAUSS_LEGENDRE tables')])

prop('P06', 'Time steppers have their nominal order and stability',
     'Each explicit and implicit multistep scheme advances exactly every equation whose solution is a '
     'polynomial of the degree that the order guarantees, for any step size, and uses exactly as much history as '
     'its order needs; global errors shrink at the nominal order when the step is halved. The implicit '
     'Euler step solves its implicit equation exactly and is stable for arbitrarily stiff linear decay; '
     'the explicit Euler and Heun steps evaluate the right-hand side at the documented points.',
     ['inputs', 'histories'],
     'every order, step size, history and polynomial or linear right-hand side',
     'A wrong coefficient in a high-order scheme is consistent at low accuracy and invisible in a '
     'sample run.',
     ['common/integrators/__init__.py'],
     [('Adams-Bashforth, Adams-Moulton, implicit Euler, Euler and Heun steps', 'common/integrators/__init__.py')])

prop('P07', 'Distribution functions: statistics and interpolation',
     'The Fermi and Bose functions equal 1/(exp(E - mu) +- 1) in units of the temperature and never overflow; a tabulated '
     'function is returned exactly at its points, and between points linear and cubic tables reproduce linear (resp. cubic) functions. '
     'Between grid points a distribution function is interpolated so that every equilibrium spectrum of '
     'the right statistics is reproduced exactly and every value lies between its two neighbours (zero next to an empty '
     'point); a query below the grid is an error and above the grid extrapolates without becoming negative '
     'or growing.',
     ['inputs'],
     'every mass, temperature, grid and table of occupation numbers, and every queried momentum',
     'Interval search and interpolation errors show only for queries in particular positions '
     'relative to the grid points.',
     ['common/statistics.py', 'common/__init__.py', 'particles/__init__.py', 'interactions/four_particle/cpp/integral.cpp',
      'interactions/three_particle/cpp/integral.cpp'],
     [('statistics', 'common/statistics.py'),
      ('table interpolation', 'common/__init__.py linear_interpolation, cubic_interpolation, binary_find, interp'),
      ('distribution interpolation', 'interactions/*/cpp/integral.cpp distribution_interpolation'),
      ('distribution of a particle', 'particles/__init__.py distribution')])

prop('P08', 'History tables keep every record, in order, exactly',
     'After any sequence of appends, extensions, truncations and reads, a history table holds exactly the appended records that '
     'were not truncated, in order and unchanged, readable by position from either end, by slice and by '
     'column name, however many there are; two tables never share records. The exported '
     'text contains one line per record, in column order, that reads back to the same numbers.',
     ['histories'],
     'every sequence of operations of any length on tables of any width',
     'Growth of the underlying buffer and wrap-around happen only in long histories.',
     ['common/utils.py'],
     [('growing arrays', 'common/utils.py Dynamic2DArray'),
      ('growing record arrays', 'common/utils.py DynamicRecArray')])

prop('P09', 'Equilibrium densities and pressures follow the exact momentum integrals',
     'In equilibrium the number density, energy density and pressure of any species equal the exact '
     'Fermi/Bose momentum integrals (within the stated accuracy of the numerical quadrature), whichever dynamical regime the '
     'species is classified in, and are proportional to its number of states. The contributions of a '
     'species to the temperature equation equal the corresponding exact integrals, never overflow for heavy '
     'species, and are consistent with the densities through the thermodynamic identity dP/dT = (rho + P)/T.',
     ['inputs', 'histories'],
     'every mass, statistics, number of states and temperature, in every regime',
     'Each regime uses different closed formulae and quadratures, and errors hide where the regimes meet.',
     ['particles/RadiationParticle.py', 'particles/IntermediateParticle.py', 'particles/DustParticle.py'],
     [('densities and pressures per regime', 'particles/*Particle.py'),
      ('numerator and denominator of the temperature equation', 'particles/*Particle.py')])

prop('P10', 'Species decouple once, at the right time, and then stream freely',
     'A species is in equilibrium at its own temperature until the plasma cools to its decoupling temperature, '
     'decouples exactly once, and its regime always follows from its mass, temperature and equilibrium state by '
     'the documented thresholds; at decoupling its comoving spectrum is the equilibrium one. Afterwards, in the absence of '
     'collisions, the comoving spectrum and the comoving number density stay constant through any expansion, while '
     'energies are sqrt(p^2 + m^2) in physical units and scale with the expansion in comoving ones. '
     'Lists of species are ordered and filtered without losing or duplicating any.',
     ['histories', 'inputs'],
     'every cooling history, mass, decoupling temperature and spectrum',
     'Decoupling is a one-time transition that depends on the path of temperature; unit tests do not run one.',
     ['particles/__init__.py', 'particles/NonEqParticle.py', 'evolution.py'],
     [('regime selection', 'particles/__init__.py Particle.regime'),
      ('decoupling', 'particles/__init__.py Particle.update'),
      ('energies', 'particles/__init__.py Particle.energy, conformal_energy')])

prop('P11', 'Collision rates advance the spectrum by the implicit scheme, staying physical',
     'One step changes the occupation of every momentum by the implicit scheme of the order allowed by the '
     'history, applied to the sum of the gain and loss terms of all collision integrals of that species, divided by '
     'the expansion as the step variable requires; loss terms count the occupation number exactly once. The occupation number '
     'never becomes negative or undefined, whatever the rates, and relaxes monotonically towards the balance of gain and loss '
     'however stiff the rates are. Interactions that live on from step to step act in every step like interactions created for that step.',
     ['inputs', 'histories'],
     'every set of gain and loss terms, step sizes of both kinds, histories and orders',
     'The existing tests never advance a distribution; multi-step history bugs need several steps.',
     ['particles/__init__.py', 'interactions/boltzmann.py', 'interactions/four_particle/__init__.py',
      'interactions/three_particle/__init__.py'],
     [('integration of the collision integrals', 'particles/__init__.py Particle.calculate_collision_integral, update_distribution'),
      ('implicit step', 'common/integrators/__init__.py adams_moulton_solver')],
     state=['occupation numbers', 'stored collision rates'])

prop('P12', 'Macroscopic quantities of a decoupled species are moments of its spectrum',
     'For a species out of equilibrium the number density, energy density, pressure and the entropy-related terms equal the '
     'corresponding momentum integrals of its actual spectrum, with either of the two selectable quadratures, and are linear in the '
     'occupation numbers and the number of states. The energy that collisions feed into the plasma per step equals the '
     'energy-weighted momentum integral of its collision rate, independently of whether the step is logarithmic or linear.',
     ['inputs', 'configurations'],
     'every non-negative spectrum and collision rate on any grid, mass and step kind',
     'Only non-thermal spectra separate these integrals from the equilibrium formulae.',
     ['particles/NonEqParticle.py'],
     [('moments of the spectrum', 'particles/NonEqParticle.py'),
      ('heat exchange', 'particles/NonEqParticle.py numerator')])

prop('P13', 'The temperature equation conserves energy and comoving entropy',
     'As long as every species is in equilibrium or streams freely, the comoving entropy of the plasma is conserved while '
     'it cools through any mass thresholds, to the accuracy of the step. When decoupled species exchange energy with the plasma, '
     'the total energy obeys d(rho)/dt = -3H(rho + P), and the change of aT per step is the quotient of the summed contributions '
     'of all species and nothing else.',
     ['inputs', 'histories'],
     'every particle content, cooling history and collision rate',
     'Energy conservation is a global statement over a run; no test compares it.',
     ['evolution.py', 'particles/'],
     [('temperature equation', 'evolution.py Universe.integrand'),
      ('step of aT', 'evolution.py Universe.make_step')])

prop('P14', 'A run records every step, stops where asked, and runs are independent',
     'A run advances until the final temperature is reached and not further, calls each user callback as '
     'often as promised, and records the initial state and then one row of parameters per step that agrees with the state of the universe '
     'at the end of that step. Universes created in one process never change each '
     'other, in any interleaving, whatever they contain: nucleon rates, oscillations and real collisions, with sterile neutrinos too '
     '(run-time settings in the environment are common to all). An interruption by the user at any step, or a temperature that is no longer a positive number, ends the program with every completed step recorded, and any other failure reaches the caller.',
     ['histories', 'fault_sequences', 'configurations'],
     'every particle content, step count, interleaving of universes and step at which a fault is injected',
     'Faults and interleavings do not occur in the tests.',
     ['evolution.py'],
     [('run loop', 'evolution.py Universe.evolve'),
      ('bookkeeping', 'evolution.py Universe.save, save_params, step_monitor')],
     state=['history of parameters and spectra'])

prop('P15', 'Output files agree with the run, also after a crash',
     'The exported evolution table holds exactly the recorded history with its header, and the log file what was printed during the run. After a crash at '
     'any step, the tables last exported (of the evolution, and of the nucleon rates) are complete and prefixes of the history. The input file of the nucleosynthesis program contains one line '
     'per recorded step once nucleon rates are switched on, with the columns in the documented units and order, each line '
     'reproducing the state of the universe and the nucleon rates of that step.',
     ['histories', 'crash_points', 'configurations'],
     'every run length, export period and crash step',
     'No test looks at the files, least of all after a crash.',
     ['evolution.py', 'kawano.py', 'common/utils.py'],
     [('export', 'evolution.py Universe.data export'),
      ('KAWANO input', 'evolution.py init_kawano, kawano.py'),
      ('log file', 'common/utils.py Logger')])


prop('P16', 'Collision integrals are computed exactly where kinematics allows',
     'The momentum of the products of a two-body decay in the rest frame follows from energy conservation, and for a '
     'decaying species in flight the momentum range that is computed for each product contains every momentum '
     'that any decay of any grid momentum in any direction can produce, and no more than that up to a grid interval. '
     'Reactions other than creation by a decay are computed on the part of the grid that the configured bounds, recorded energies or masses '
     'make reachable; skipped momenta are exactly zero and stay in their places, so that the result always has the length of the grid. '
     'When a grid is finer than the configured resolution the thinned-out points are a subset of the grid that still '
     'covers it, and the integral at the others is interpolated.',
     ['inputs', 'configurations'],
     'every combination of masses, scale factor, grid, random decay in flight and resolution',
     'A bound that cuts off a few reachable momenta loses particles quietly, and only for particular masses and momenta.',
     ['common/kinematics.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('momentum in the rest frame', 'common/kinematics.py cm_momentum'),
      ('bounds for creation by decays', 'common/kinematics.py three_particle_bounds_creation, four_particle_bounds_creation and the grid versions'),
      ('bounds for scattering and decay', 'common/kinematics.py four_particle_grid_cutoff_scattering, four_particle_grid_cutoff_decay, grid_cutoff_4p, grid_cutoff_3p'),
      ('thinning out', 'common/kinematics.py interpolation_4p')])

prop('P17', 'Sterile neutrinos: decoupling temperature and grids for decay products',
     'The decoupling temperature of a sterile neutrino of any mass and mixing angle is the temperature where its interaction rate equals the expansion '
     'rate, with the relativistic or the non-relativistic estimate as its mass requires, never below the temperature where it becomes Boltzmann suppressed, '
     'and decreases with a stronger mixing. '
     'The grid proposed for the sterile neutrino and for neutrinos, mesons and charged leptons from its decay ends where all decay products of a particle at rest '
     'still fit until the largest scale factor considered, and its spacing resolves the spread of their momenta without being coarser than '
     'the configured resolution.',
     ['inputs', 'configurations'],
     'every mass, mixing angle, scale factor and resolution',
     'No test calls these helpers; the formulae switch at many mass thresholds.',
     ['common/kinematics.py'],
     [('decoupling temperature', 'common/kinematics.py decoupling_temperature, decoupling_temperature_relativistic'),
      ('spacing of the grids', 'common/kinematics.py grid_resolution_*'),
      ('size of the grids', 'common/kinematics.py grid_params_*')])

prop('P23', 'Every crossed reaction of an interaction is generated once, correctly',
     'From one interaction, every reaction that crossing of its fields can produce for every particle in it is generated exactly once, none of '
     'them is impossible or for an antiparticle of a species observed already, equal ones '
     'are merged with the sum of their matrix elements, and each integral observes a particle on the left-hand side of its reaction. '
     'The matrix element of every generated reaction, as a function of the momenta, is the original one with momenta relabelled and '
     'mass terms changing sign for each crossed field, added over the equivalent ways of obtaining it. '
     'The kind of collision integral requested is passed on to all of them, meaningless kinds are rejected, and building an interaction changes none of its inputs, '
     'and filtering removes exactly the integrals that observe (or involve) the named species or are of an excluded type.',
     ['inputs', 'configurations'],
     'every interaction of three or four fields with any repetitions, Majorana species, antiparticles and matrix elements',
     'The number of reactions depends on repetitions of species and on the antiparticle flags in a combinatorial way.',
     ['interactions/__init__.py', 'interactions/boltzmann.py'],
     [('crossing', 'interactions/__init__.py CrossGeneratingInteraction'),
      ('merging', 'interactions/__init__.py IntegralDeduplicator'),
      ('kinds', 'interactions/__init__.py CrossGeneratingInteraction.__init__'),
      ('filtering', 'common/utils.py interaction_filter')])

prop('P24', 'Matrix elements behave as the functions of momenta they stand for',
     'A four-particle matrix element is the function K1 (p_i.p_j)(p_k.p_l) + K2 m_i m_j (p_k.p_l) of the momenta in its order: adding two that are declared addable '
     'adds the functions and leaves the second alone, two of the same structure are addable, and scaling scales the function. '
     'Relabelling for a reaction gives the function of the crossed momenta, with the mass term changing sign once for each crossed field in it, and orders that repeat a momentum are rejected. '
     'Three-particle matrix elements are constants with the same algebra.',
     ['inputs'],
     'every pair of orders, coefficients, momenta and crossings',
     'Symmetries of the order are easy to break for particular permutations only.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('four-particle matrix elements', 'interactions/four_particle/__init__.py FourParticleM'),
      ('three-particle matrix elements', 'interactions/three_particle/__init__.py ThreeParticleM')])

prop('P25', 'The particle and interaction library follows the physics it names',
     'Every species of the library has the mass, spin statistics, degrees of freedom, charge and decoupling of the real particle, '
     'sterile neutrinos carry the given mass and mixing, and the quark mixing matrix is unitary. '
     'The interactions generated for any set of neutrino flavours, charged leptons, quarks and mesons contain every process once with the matrix elements of the '
     'electroweak theory, so that total widths calculated from them agree with the published formulae, '
     'and those that are kinematically closed or of zero mixing contribute nothing. '
     'Decay chains of secondary mesons and muons list each decay once, conserve charge, and create every one of their products.',
     ['inputs', 'configurations'],
     'every mass, mixing angle, and set of flavours, quarks, leptons and mesons',
     'The library is data and code that full runs sample at a few points; wrong couplings give plausible results.',
     ['library/SM.py', 'library/NuMSM.py'],
     [('species', 'library/SM.py particles, library/NuMSM.py particles'),
      ('weak interactions of neutrinos', 'library/SM.py interactions'),
      ('sterile neutrino channels', 'library/NuMSM.py interactions'),
      ('meson and muon decays', 'library/SM.py interactions, library/NuMSM.py interactions.interactions_decay_products')])

prop('P26', 'Oscillations redistribute collision rates between flavours, nothing else',
     'The flavour transition probabilities are symmetric, between 0 and 1 and sum to 1 over the flavours for any matter potential and both hierarchies; '
     'they equal the averaged vacuum probabilities of the measured angles without matter and follow the effective angles in matter, so that mixing of electron neutrinos ceases at high density. '
     'With oscillations switched on, the collision rate of every participating flavour becomes the sum of all their rates weighted with these probabilities at its '
     'momentum and the current temperature, from the moment one of them decouples and not before, which conserves the total rate; without them every flavour keeps its own rate.',
     ['inputs', 'histories', 'configurations'],
     'every temperature, scale factor, momentum, set of flavours, hierarchy, and collision rate',
     'The weights depend on momentum and temperature together; unit tests do not run the mixing.',
     ['evolution.py', 'library/SM.py', 'common/__init__.py'],
     [('probabilities', 'library/SM.py particles.leptons.oscillations_map'),
      ('matter potentials', 'evolution.py Universe.oscillation_parameters'),
      ('mixing of the rates', 'evolution.py Universe.update_distributions')])

prop('P27', 'Weak rates of nucleons follow the lepton spectra and detailed balance',
     'In equilibrium the three pairs of opposite neutron-proton conversion rates have the ratio exp(-Q/T) with the nucleon mass difference Q. For any electron temperature and any neutrino spectrum, decoupled or distorted, '
     'each of the six rates equals its phase space integral with the actual occupation numbers and Pauli blocking, normalised to the decay of the free neutron, which is what remains at late times. '
     'Rates depend on the species selected last and the current state alone, and are never negative.',
     ['inputs', 'histories'],
     'every temperature, scale factor and neutrino spectrum',
     'The rates are only used in full runs; a wrong sign in one blocking factor changes the helium abundance slightly.',
     ['kawano.py'],
     [('six rates', 'kawano.py _rate1 to _rate6, baryonic_rates'),
      ('selected species', 'kawano.py init_kawano')])


prop('P28', 'Fast-decaying species: everything created decays into counted products',
     'In each step all particles of a fast-decaying species that its creation channels produce decay, distributed over its decay channels by their branching ratios, '
     'so that created minus decayed particles is exactly what the branching ratios leave out, and thermalisation changes their spectrum to the thermal one but not their number. '
     'Every product is created in exactly the number that branching ratio, multiplicity in the channel and the number of decaying particles imply, also if it is itself fast-decaying, and '
     'nothing is created when nothing decays. Between steps only the thermal relic population remains, which is the equilibrium spectrum at decoupling and decays exponentially with the lifetime.',
     ['inputs', 'histories'],
     'every creation and decay spectrum, branching ratio, lifetime, and two- and three-body decay with identical or charged products',
     'The number of particles is restored by rescaling, so that any slip changes yields quietly.',
     ['common/kinematics.py', 'particles/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('decay within the step', 'common/kinematics.py Icoll_fast_decay'),
      ('number of products', 'common/kinematics.py scaling'),
      ('spectrum between steps', 'particles/__init__.py update_distribution')])

prop('P18', 'Angular integrals of four-particle collisions equal their definition',
     'For any four momenta the basic functions that replace the nine-dimensional phase space integral equal the defining integral over the three angles, are zero exactly where momentum cannot be conserved, '
     'and are symmetric under exchange of the momenta they treat alike. For any matrix element, masses and order of the particles their combination is the angular average of the products of four-vectors, '
     'with the sign of each side of the reaction, linear in the constants, and the functions for a particle at rest are its limit.',
     ['inputs', 'configurations'],
     'every set of four momenta and masses, inside, on and outside the boundaries of the kinematic regions, and every order of the matrix element',
     'The functions are piecewise polynomials with a dozen regions; samples do not reach all of them.',
     ['interactions/four_particle/cpp/integral.cpp'],
     [('basic functions', 'interactions/four_particle/cpp/integral.cpp D1, D2, D3, Db1, Db2'),
      ('combination for a matrix element', 'interactions/four_particle/cpp/integral.cpp D, Db')])

prop('P29', 'The QCD transition conserves entropy and swaps quarks for hadrons',
     'At the QCD transition quarks and gluons leave the universe and the hadrons enter it with their state at the current temperature, all other species stay as they are, and the interactions of quarks are replaced by those of hadrons. '
     'The product of scale factor and temperature changes by the cube root of the ratio of entropic degrees of freedom, so that the comoving entropy is the same before and after, at whatever moment the transition takes place. '
     'The evolution continues from there with a continuous scale factor and time.',
     ['inputs', 'histories', 'configurations'],
     'every set of species and interactions on both sides, temperature, step and number of steps before and after',
     'The transition happens once in a run and its effect is a shift of the temperature that nothing else checks.',
     ['evolution.py', 'common/__init__.py'],
     [('transition', 'evolution.py Universe.QCD_transition'),
      ('degrees of freedom', 'common/__init__.py Params.entropic_dof_eq')])

prop('P30', 'Collision terms are left out only where they vanish, and are zero then',
     'A collision term is skipped exactly for the documented reasons: the mother has decayed, nothing fast-decaying was created, both sides of a scattering are diluted, a sterile neutrino scatters below its decoupling or decays above its mass, or a massless particle would decay; '
     'in every other state it is calculated. A skipped term is zero at every momentum, in the form the solver expects. '
     'A species is declared gone when, and only when, a massive one has been diluted below the threshold, and repeated identical particles count with their number.',
     ['inputs', 'histories', 'configurations'],
     'every three- and four-particle reaction, kind of term, and state of the species in it',
     'The rules combine many states of several species; a wrong one silently switches off physics.',
     ['common/kinematics.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py', 'particles/__init__.py'],
     [('rules', 'common/kinematics.py Neglect3pInteraction, Neglect4pInteraction'),
      ('species that is gone', 'common/kinematics.py has_decayed'),
      ('identical particles', 'common/kinematics.py CollisionMultiplier3p, CollisionMultiplier4p')])

prop('P31', 'Orthogonal polynomials and the quadrature rules derived from them are exact',
     'For every Jacobi weight, an n-point Gauss rule has positive weights and ordered nodes inside the interval and integrates polynomials up to degree 2n-1 exactly; rules with one or two prescribed nodes contain them and lose one and two degrees. '
     'Polynomials and derivatives of any order and normalisation equal their definition, and normalised ones are orthonormal. The modified moments of logarithmic weights are exact and lead to rules with the same property, and parameters outside the domain are rejected.',
     ['inputs'],
     'every order, pair of exponents, prescribed node and evaluation point',
     'Recursions fail for particular orders and exponents only, and nothing in the tests uses them.',
     ['common/orthopoly.py'],
     [('recursion coefficients', 'common/orthopoly.py rec_jacobi, rec_jacobi01, rec_jaclog'),
      ('rules', 'common/orthopoly.py gauss, radau, lobatto'),
      ('polynomials', 'common/orthopoly.py jacobi, jacobiD, polyval, mm_log')])

prop('P32', 'Run-time utilities: logs, throttling, buffers and switches do what they say',
     'Whatever a program prints while logging is on reaches the terminal and the log file complete and in order, and afterwards printing is as before. Throttled updates happen at most once per interval and never stop, ring buffers hold exactly the last values and their extremes, '
     'print options are restored after the block also if it raises, timing reports the duration of the call and hands on result and error, and output folders exist after being requested. '
     'Switches read from the environment are on and off as their text says.',
     ['inputs', 'histories'],
     'every sequence of prints, updates, appended values, nested options and exceptions',
     'These are histories with state; an off-by-one or lost restoration shows only in particular sequences.',
     ['common/utils.py'],
     [('log', 'common/utils.py Logger'), ('throttling', 'common/utils.py Throttler'),
      ('ring buffer', 'common/utils.py ring_deque'),
      ('print options and timing', 'common/utils.py printoptions, benchmark')])

prop('P33', 'The semianalytic nucleosynthesis estimate follows its definition',
     'Neutrons decouple at the first step at which the total rates of neutron-proton conversion and of its inverse, as recorded last, differ by more than a factor of ten in either direction, and deuterium forms at the first step at which photons are colder than 0.065 MeV. '
     'As soon as both have happened, and not before, an estimate is made: the neutron to proton ratio is the equilibrium one at decoupling reduced by free decay over the time in between, and the helium mass fraction 2r/(1+r). '
     'The estimate is made once and later steps never change it.',
     ['inputs', 'histories'],
     'every history of temperatures, times and nucleon rates, recorded at every step or not',
     'The monitor keeps state over a whole run and its result is compared with nothing.',
     ['semianalytic.py'],
     [('monitor and estimate', 'semianalytic.py step_monitor')])

prop('P19', 'Collisions leave equilibrium alone and push every spectrum towards it',
     'When the other particles of a reaction are in thermal or chemical equilibrium (their chemical potentials balance), the collision integral of a particle at every momentum equals its gain times (1 - f/f_eq), where f_eq is the occupation number that balances the reaction: '
     'it vanishes in equilibrium, is positive below and negative above. The gain is never negative, the linear part is minus the gain divided by f_eq, '
     'and the gain and loss terms taken alone are (1 -/+ f) times the gain and f/f_eq (1 -/+ f_eq) times the gain with a minus sign.',
     ['inputs', 'configurations'],
     'every two-body and three-body decay, inverse decay and 2-2 scattering, with any masses, statistics, temperatures, balanced potentials, matrix elements and momentum',
     'The existing physical tests print results to look at; an imbalance of the gain and the loss shows only for particular masses, statistics and momenta.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/four_particle/__init__.py', 'interactions/three_particle/cpp/integral.cpp', 'interactions/three_particle/__init__.py'],
     [('gain and loss', 'interactions/*/cpp/integral.cpp F_A, F_B, F_f, F_1, F_decay, F_creation'),
      ('interpolation of spectra', 'interactions/*/cpp/integral.cpp distribution_interpolation'),
      ('assembly', 'interactions/*/__init__.py integrate')])

prop('P20', 'Collision integrals equal the phase space integral that defines them',
     'For a two- or three-body decay, an inverse decay or a 2-2 scattering the collision integral of the first particle at every momentum, also at rest, is the integral of the matrix element times the occupation and blocking factors over the relativistic phase space of the others, '
     'divided by 2 E H and by the number of degrees of freedom (half of it for particles with an antiparticle), per unit of ln a or of x as configured. '
     'This holds for each kind of term (full, linear, constant, gain, loss and vacuum decay), and for sums of matrix elements of any structure, also constant ones.',
     ['inputs', 'configurations'],
     'every set of masses, spectra, statistics, matrix elements, temperatures, expansion rates, step kinds and momenta with a kinematic region that the grids resolve',
     'The integrals have no closed form for general masses and no test compares them with anything; errors of kinematic boundaries show for particular masses only.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/four_particle/__init__.py', 'interactions/three_particle/cpp/integral.cpp', 'interactions/three_particle/__init__.py', 'common/kinematics.py'],
     [('integrand', 'interactions/*/cpp/integral.cpp integrand_full'),
      ('boundaries', 'interactions/*/cpp/integral.cpp integration, integration_3'),
      ('normalisation', 'interactions/*/__init__.py integrate')])

prop('P21', 'A collision integral at one momentum depends on nothing but that momentum',
     'The value of the compiled collision integral at one momentum is the same whether that momentum is integrated alone, with others, in another order, repeatedly, or with another number of threads. '
     'It returns exactly one value per requested momentum, in the order requested.',
     ['schedules', 'inputs'],
     'every reaction of three or four particles, list of momenta and number of threads',
     'State shared between loop iterations or threads shows up only for particular orders of momenta and schedules.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp'],
     [('parallel loops over momenta', 'interactions/*/cpp/integral.cpp integration, integration_3')])

prop('P22', 'Collisions conserve energy and the numbers of particles they must conserve',
     'Summed over all species of an interaction and its crossings, with their degrees of freedom, the collision integrals change neither the energy nor, for 2-2 reactions, the number of particles; in a decay every product appears as often as mothers disappear. '
     'This holds for generated interactions of distinct species, elastic scattering and pair annihilation, and for the weak interactions of neutrinos and charged leptons of the library.',
     ['inputs', 'configurations'],
     'every set of masses, spectra, degrees of freedom and matrix elements of such interactions',
     'Conservation involves all integrals of all species at once: each may look fine while a multiplicity or a sign in one of them is wrong.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'library/SM.py', 'common/kinematics.py'],
     [('crossing', 'interactions/__init__.py CrossGeneratingInteraction'),
      ('normalisation and multiplicity', 'interactions/*/__init__.py integrate, common/kinematics.py CollisionMultiplier4p'),
      ('weak interactions', 'library/SM.py interactions.neutrino_interactions')])

NOT_APPLICABLE = {}
