"""Writes properties.jsonl (the single place the property texts are kept)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               hook_needed=None)))


A, H, U, T, S, W = ('atomtoolkit/atom.py', 'atomtoolkit/atom_helpers.py', 'atomtoolkit/util.py', 'atomtoolkit/term.py',
                    'atomtoolkit/transition_strengths.py', 'atomtoolkit/wigner.py')
IO, L, GR = 'atomtoolkit/IO.py', 'atomtoolkit/render/lineshapes.py', 'atomtoolkit/render/grotrian.py'

p('C01', 'Quantum-number and orbital-letter notation is an exact two-way code',
  "Writing any integer or half-integer quantum number (positive, zero or negative) as text gives its canonical form ('3', '-1', '5/2', '-1/2', ...) and reading that text back returns exactly the same number; text already in fraction form and absent values pass through unchanged, and decimal text of a half-integer ('1.5') is turned into the same canonical form. "
  "The orbital letters S P D F G H I K L M N O Q R T U V W X Y Z stand for 0..20 in that order, in either case, in both directions; every other ASCII character, every longer string and every non-integer float is rejected with an error, and the empty string means 'absent'.",
  ['inputs'], 'all integers n (value n/2) of the float range in which n/2 is exact; all 21 letters in both cases; all other ASCII characters',
  'test_util samples a handful of values; names, keys and hyperfine sublevel labels of every atom are built from these conversions.',
  [U], [('float_to_frac / frac_to_float', U), ('let_to_l / l_to_let', U)], ['return values', 'level and sublevel names'])

p('C02', 'Term symbols are read as the notation says',
  "For every term symbol in one of the four notations the package documents, the coupling reported is the one written: a bracketed K preceded by an orbital letter is LK, a bracketed K otherwise is JK, parentheses are JJ, and anything else of at least two characters is LS. "
  "The quantum numbers extracted from configuration and term (L and S; core/outer L, S and J; total L and K) are exactly the ones written in them - S=(2S+1-1)/2 from a multiplicity, L from a letter, J and K from an integer or fraction, S=0 for an uncapitalised single-electron letter in a JJ configuration - and every quantum number the notation does not carry is reported as absent. "
  "A term has odd parity (-1) exactly when its symbol carries an asterisk, and even parity (+1) otherwise.",
  ['inputs'], 'all multiplicities, letters, J and K values and surrounding configuration text of the documented NIST forms',
  'fourteen sample configurations are tested; the conversion to LS, g-factors and parity selection rules rest on it for every NIST level.',
  [U, T], [('get_term_coupling, get_quantum_nums, parse_LS/JK/JJ/LK_term', U), ('Term.__init__ parity', T)], ['Term attributes'])

p('C03', 'Terms name, compare and copy themselves consistently',
  "A term's full name is its configuration, one space, the term symbol immediately followed by J, and then ' F=<F>' and ' mF=<mF>' for the parts that are set; its short name is only the last of these parts, with every quantum number in canonical fraction form. "
  "A multi-component term keeps all its components ordered by decreasing percentage and answers every term attribute with the leading component's value. "
  "Copies made for sublevels keep configuration, symbol, J, parity, coupling, percentage and quantum numbers of every component, set F on a term without F and mF on a term that has F (keeping its F), and never alter the original.",
  ['inputs'], 'all configurations, term symbols, J, F, mF, percentages and numbers of components',
  'tests copy one term and build one three-component term.',
  [T], [('Term.__init__ / make_term_copy', T), ('MultiTerm.__init__ / __getattribute__ / make_term_copy', T)], ['name, short_name, term_name', 'attributes'])

p('C04', 'Sublevels are complete: every F and mF exactly once',
  "For every nuclear spin I and every level with angular momentum J, the hyperfine sublevels are exactly F=|J-I|, |J-I|+1, ..., J+I, each once, in increasing order, under the key 'F=<F>', and the Zeeman sublevels of each are exactly mF=-F, ..., F under 'mF=<mF>'; the Zeeman sublevels of a level number (2I+1)(2J+1) in total. "
  "Each sublevel's term carries its F (and mF) and the J of the level, its parent, manifold and atom are the ones it was reached through, and its name is the level's name extended by ' F=<F>' and ' mF=<mF>'. "
  "The result is the same whether sublevels are generated on demand by any of the dict-like accessors or requested when the level is added.",
  ['inputs', 'histories'], 'all half-integer I >= 0 and J >= 0, all accessor orders',
  'the tests use I=0 and I=1/2 with three J values.',
  [A, T], [('lazy_compute_sublevels, populate_sublevels', A)], ['level.keys(), values(), items(), len()', 'atom.levels[...]'])

p('C05', 'Hyperfine shifts follow the Casimir formula for A, B and C',
  "For every I, J, F and coefficients A, B, C the hyperfine shift of a sublevel is A*K + B*Q(F) + C*O(F) with K=I.J=[F(F+1)-J(J+1)-I(I+1)]/2 and Q, O the standard quadrupole and octupole interaction factors, so that a stretched state F=I+J is shifted by A*I*J + B/4 + C; the quadrupole term is present only if I>=1 and J>=1 and the octupole term only if I>=3/2 and J>=3/2. "
  "The (2F+1)-weighted mean of the shifts over all F is zero for all coefficients: hyperfine structure never moves the centroid. "
  "Coefficients can be given and changed at any time in any frequency unit, and the shifts follow.",
  ['inputs', 'histories'], 'all half-integer I, J, all |I-J|<=F<=I+J, all real A, B, C',
  'tests exercise only A with I=1/2; the B and C branches are never executed with non-zero coefficients.',
  [A], [('HFLevel.compute_hf_shift, shift_Hz', A), ('EnergyLevel.hfA/hfB/hfC', A)], ['level.shift, level.level'])

p('C06', 'Zeeman shifts: gF, linear and quadratic terms',
  "A Zeeman sublevel is displaced from its hyperfine level by gF*mF*mu_B*B plus its quadratic coefficient times B^2 (B in gauss, mu_B=1.39962449361 MHz/G), where gF=gJ*[F(F+1)+J(J+1)-I(I+1)]/(2F(F+1)) and gF=0 for F=0. "
  "At zero field all sublevels coincide with the hyperfine level, reversing the field reverses the linear shift, and the linear shifts of the 2F+1 sublevels sum to zero. "
  "The field can be set at any time in any unit convertible to gauss and the shifts follow immediately.",
  ['inputs', 'histories'], 'all I, J, F, mF, gJ, quadratic coefficients and fields',
  'no test has a non-zero magnetic field.',
  [A], [('HFLevel.compute_gF, ZLevel.shift_Hz, Atom.B', A)], ['level.shift, level.level'])

p('C07', 'Energies add up through the hierarchy and edits move levels rigidly',
  "A sublevel's energy is always the sum of the energy of its fine-structure level and the shifts along its parents, in whatever unit it is read. "
  "Assigning an energy, in any energy-convertible frequency or wavenumber unit, to a level or to any of its hyperfine or Zeeman sublevels makes that (sub)level read back exactly this energy, by moving the whole fine-structure level rigidly: every other sublevel of the level moves by the same amount, and no other level, no coefficient and no shift changes.",
  ['inputs', 'histories'], 'all energies, units, coefficients, fields and sequences of assignments',
  'tests assign one value at B=0 and I=0.',
  [A], [('BaseLevel.level, HFLevel.level / level_Hz, EnergyLevel.level_Hz', A)], ['level.level'])

p('C08', 'Transition frequencies are level differences and can be set at any depth',
  "The frequency of a fine, hyperfine or Zeeman transition is the absolute energy difference of its two (sub)levels at all times, and its upper level is the one with the larger energy when the transition is created. "
  "Setting the frequency of a transition, given in any unit convertible to frequency, makes that transition report it; setting it on a hyperfine or Zeeman transition changes the frequency of the parent transition(s) by the same amount, and leaves the structure inside each level unchanged.",
  ['inputs', 'histories'], 'all level energies, sub-level shifts (smaller than the transition frequencies), target frequencies and units',
  'three tests set one value in THz with zero shifts.',
  [A], [('BaseTransition.freq, set_frequency of Transition, HFTransition, ZTransition', A)], ['transition.freq, wl'])

p('C09', 'Loop-free frequency constraints are all satisfied, after any history',
  "After any sequence of adding levels, adding transitions with or without a set frequency, and setting or re-setting transition frequencies, as long as the transitions with a set frequency form no loop, every one of them reports exactly its set frequency with its upper level above its lower level. "
  "Levels that no fixed transition touches never move, and of the levels connected to each other by fixed transitions the lowest one at the time of the change does not move.",
  ['histories', 'inputs', 'configurations'], 'all forests of fixed transitions, all orders of operations, all frequencies',
  'tests fix a single transition of a three-level atom.',
  [A], [('Atom.enforce_consistency, add_transition, Transition.set_frequency', A)], ['level.level, transition.freq'])

p('C10', 'Allowed transition types obey the selection rules',
  "A transition between two levels is reported E1-allowed exactly when parity changes, |J1-J0|<=1 and not J0=J1=0; M1-allowed exactly when parity is kept, |J1-J0|<=1 and not J0=J1=0; E2-allowed exactly when parity is kept, |J1-J0|<=2<=J0+J1 and the two levels are different. "
  "A hyperfine transition has a type exactly when its parent has it and the corresponding 6j symbol {J0 J1 k; F1 F0 I} (k=1 for E1 and M1, 2 for E2) does not vanish, and a Zeeman transition has a type exactly when its parent has it and the 3j symbol (F1 k F0; -mF1 q mF0) is non-zero for some q.",
  ['inputs'], 'all J0, J1, I, F0, F1, mF0, mF1 and parities',
  'no test looks at allowed types; the numerical selection rules depend on how the Wigner symbols signal zero.',
  [A, W], [('transition_allowed of Transition, HFTransition, ZTransition', A), ('wigner3j, wigner6j', W)], ['transition.allowed_types'])

p('C11', 'Subtransitions are exactly the allowed pairs of sublevels',
  "The subtransitions of a transition are exactly one per pair (sublevel of one level, sublevel of the other) for which some transition type is allowed - none missing, none forbidden, none duplicated - each filed under the short names of its sublevels of the lower and of the upper level (also when the structures of the two levels overlap in energy), belonging to that transition, and connecting sublevels of its two levels. "
  "They are the same whether generated on demand by any dict-like accessor or explicitly, and hold the right sublevels also for internal transitions (within one level, where each unordered pair of sublevels occurs once) and for transitions re-added to an atom.",
  ['inputs', 'histories'], 'all I, J, F, parities and types of the parent',
  'tests look up a few subtransitions of an I=0 atom.',
  [A], [('populate_subtransitions, _compute_sublevel_pairs, lazy_compute_subtransitions', A)], ['transition.keys(), values(), items(), len()'])

p('C12', 'Relative strengths of subtransitions satisfy the sum rules',
  "A hyperfine transition's strength relative to its parent is (2F1+1)(2F2+1){J2 F2 I; F1 J1 k}^2 and a Zeeman transition's relative to its hyperfine parent is the sum over q of (F1 k F2; -m1 q m2)^2, with k=1 if the parent is E1 or M1 allowed and otherwise k=2 for E2, 0 if nothing is allowed; its A coefficient is this factor times the parent's A, and absent with factor 1 if the parent has none. "
  "Hence, for a parent of rank k, the strengths from one F of either level to all F of the other sum to (2F+1)/(2J+1) of that level, the whole hyperfine multiplet sums to 2I+1, and the Zeeman strengths from one mF sum to 1/(2F+1), in total to 1.",
  ['inputs'], 'all I, J1, J2, F1, F2, m1, m2, A',
  'tests use I=0 with E1 transitions and never check strengths.',
  [A, W], [('compute_linewidth of HFTransition, ZTransition', A)], ['transition.A, transition.rel_strength'])

p('C13', 'Branching ratios and lifetimes follow from the A coefficients',
  "The branching ratios from a level go to exactly the levels that lie at the lower end of a transition whose upper level it is; each ratio is that transition's A divided by the sum of them, in whatever units and mix of units the A coefficients were given, so they are positive and sum to 1. "
  "The lifetime is 2*pi divided by the sum of the same A coefficients, infinite if the level decays nowhere, and only transitions leading downward from the level count. "
  "A missing A coefficient is reported as a ValueError, never as a wrong number, and levels may be given by name or alias.",
  ['inputs', 'configurations'], 'all sets of transitions, A coefficients and units',
  'one three-level atom with A given in MHz and Hz is tested.',
  [A], [('compute_branching_ratios, state_lifetime, linked_levels', A)], ['return values'])

p('C14', 'All ways of addressing a level reach the same level',
  "A level is reached by its name, by its alias, and by its position in the order of increasing energy (integer or slice); a hyperfine sublevel by '<name> F=<F>' and by indexing the level with 'F=<F>'; a Zeeman sublevel by '<name> F=<F> mF=<mF>' and by two successive indexings; with I=0 also by '<name> mJ=<mJ>' and level['mJ=<mJ>'] - all of these give the identical object, whose name is the key. "
  "Names, aliases and the mapping between keys and levels stay correct as levels are added, and a key that denotes nothing raises KeyError (IndexError for a position).",
  ['inputs', 'histories'], 'all level names and aliases, all F, mF, all sets of levels and energies',
  'tests use three fixed names.',
  [A, H], [('LevelStructure.__getitem__, aliases', H), ('BaseLevel.__getitem__', A)], ['atom.levels[...]'])

p('C15', 'All ways of addressing a transition reach the same transition',
  "For levels a and b joined by a transition, atom.transitions gives that same transition for (name_a, name_b) and (name_b, name_a), for the pair of level objects, for the pair of positions in energy order and for its alias, whatever the order in which levels and transition were added. "
  "With ' F=..', ' F=.. mF=..' or (I=0) ' mJ=..' appended to both names it gives the sub-transition joining exactly these two sublevels, the identical object that indexing the transition gives, even when sublevels of both levels share the same F or mF. "
  "A pair without a transition raises KeyError.",
  ['inputs', 'histories'], 'all pairs of level names, insertion orders, F, mF',
  'tests use one insertion order and I=0, where every F label is unique.',
  [A, H], [('TransitionStructure.__getitem__', H), ('BaseTransition.__getitem__', A)], ['atom.transitions[...]'])

p('C16', 'Saving and loading an atom loses nothing',
  "Saving an atom writes exactly one file, named as requested with '.atom' appended unless it already ends in it (the atom's name if no name is requested), wherever dots occur elsewhere in the path; loading that file gives an atom with the same name, spin, field, levels, energies, coefficients, aliases, transitions, set frequencies and A coefficients, whose derived quantities agree with the original's. "
  "Saving does not change the atom, and loading a file that holds any other object raises IOError.",
  ['inputs', 'configurations'], 'all file names and all atoms, with sublevels and subtransitions populated or not',
  "tests save to 'dummy' and 'dummy.atom' only and compare nothing after loading.",
  [A], [('Atom.save, Atom.load', A)], ['the file system', 'the loaded atom'])

p('C17', 'Hyperfine tables round-trip through CSV',
  "Writing the hyperfine coefficients of an atom to CSV and applying the file to an atom with the same levels gives every level the same A, B and C, in particular those given in different units, negative or zero (levels with zero A take the stated default A), with one row per level; a blank template gives zeros for every level. "
  "Applying a table changes the coefficients of exactly the levels it names, ignores rows naming unknown levels, and leaves everything else unchanged.",
  ['inputs', 'configurations'], 'all atoms, coefficients and default values',
  'the IO module has no test.',
  [IO], [('generate_hf_csv, apply_hf_csv', IO)], ['the CSV file', 'level.hfA, hfB, hfC'])

p('C18', 'Recoupling to LS is a unitary change of basis',
  "Re-expressing a JJ-, JK- or LK-coupled state in LS coupling lists every (L,S) with |Lc-Lo|<=L<=Lc+Lo and |Sc-So|<=S<=Sc+So exactly once (the single given L for LK), with amplitude equal to the recoupling coefficient built from the 9j or 6j symbols, up to phase. "
  "For every valid coupled state the squared amplitudes sum to one, amplitudes vanish for (L,S) that cannot form J, and the readable form lists exactly the terms with non-zero amplitude as '<2S+1><letter>' with 100 times the squared amplitude rounded to two decimals.",
  ['inputs'], 'all valid lc, sc, jc, lo, so, jo, K, L, J',
  'no test calls the conversion functions.',
  [S, U], [('JJ_to_LS, JK_to_LS, LK_to_LS', S), ('readable_*_to_LS, _sets_to_list, term_to_LS', U)], ['return values'])

p('C19', 'Lande g-factors are the percentage-weighted LS values',
  "For a level whose Lande factor is not given, the estimate is the average over its term components, weighted by their percentages out of 100, of 1+1.0023*[J(J+1)+S(S+1)-L(L+1)]/(2J(J+1)) evaluated on each component's own quantum numbers - averaged over the squared LS amplitudes for JJ, JK and LK components - and zero for J=0. "
  "A given Lande factor is used unchanged.",
  ['inputs'], 'all term components, percentages and couplings',
  'no test looks at a g-factor.',
  [A, S], [('EnergyLevel.__init__, compute_gJ', A)], ['level.lande', 'Zeeman shifts'])

p('C20', 'Tensor transition strengths obey angular-momentum algebra',
  "The strength of a component q of a rank-k transition is (2F0+1)(2F1+1){J0 J1 k; F1 F0 I}^2 (F1 k F0; -M1 q M0)^2 and equals the squared matrix element; it vanishes unless M1=M0+q and the triangle rules hold, and summed over q, and over all final F1, M1, it is 1/(2J0+1) for each state of the initial level. "
  "For a real (linear) polarization vector the geometric E1/M1 strength weights q=0 with the squared polarization component along the quantization axis and q=+-1 with half the squared transverse part, depends only on the direction of the polarization (not its length), and reduces to the average of E1 over the three axes; the E2 strengths and matrix elements vanish whenever no rank-2 component is allowed and depend only on the directions of polarization and wave vector.",
  ['inputs'], 'all I, J, F, M, q and all non-zero polarization and wave vectors',
  'no test calls these functions.',
  [S], [('tkq_transition_strength, tkq_mel, E1/M1/E2_*_geom, *_avg', S)], ['return values'])

p('C21', 'Line shapes have the documented peak, width and symmetry',
  "The Lorentzian line shape is ampl at its centre, symmetric, positive and ampl/2 at a distance of half the stated full width gamma; the Gaussian is ampl*exp(-(x-x0)^2/(2 sigma^2)), symmetric with ampl at its centre. "
  "The modulated Lorentzian is the sum of a carrier and, for every order up to the number of sidebands, a symmetric pair displaced by that multiple of the modulation frequency with weight J_n(depth)^2. "
  "The line shape objects reproduce these functions with the width they were given plus the natural width handed to them, on a grid of the requested number of points centred on the line and reaching padding widths to each side.",
  ['inputs'], 'all positions, widths, amplitudes, depths and sideband counts',
  'the render package has no test.',
  [L], [('lorentzian, gaussian, mod_lorentzian, LineShape.compute', L)], ['return values'])

p('C22', 'Grotrian diagrams place levels at their energies with faithful widths',
  "A gross-structure level is drawn as a horizontal line of the given width centred at x0+x1 at height energy/THz + y1 (or y0+y1); a hyperfine level is displaced by hf_scale times its shift and a Zeeman level by hf_scale*(hyperfine shift + z_scale*Zeeman shift), in THz, with 'realistic' spacing, and levels are equally spaced with 'schematic' spacing. "
  "With degeneracy widths the hyperfine line of F is proportional to 2F+1 and the line F=squeeze has exactly the full width (by default F=J+I); Zeeman lines are equally wide, centred at mF times a constant pitch, disjoint, and all fit within the width for F<=squeeze. "
  "Every sublevel is drawn exactly once, and the bounding box of a drawn structure contains all its lines.",
  ['inputs', 'configurations'], 'all levels, I, J, F, mF, shifts and drawing options',
  'the render package has no test.',
  [GR], [('Grotrian._compute_*_row, _*_level_table, bbox', GR)], ['the table of lines'])

p('C23', 'Level and transition tables are turned into atoms faithfully',
  "Building an atom from a level table gives one level per row (up to the requested number) with that row's energy, J, configuration, term and Lande factor, a component per non-empty configuration column with its percentage, and an estimated Lande factor where the table has none; the atom has the requested name, spin and field. "
  "Populating transitions from a transition table adds, for each row whose two levels exist, one transition between exactly these levels with the row's A and frequency, and ignores rows with unknown levels.",
  ['inputs', 'configurations'], 'all tables of the documented columns',
  'both tests of table loading are empty stubs.',
  [A, T], [('Atom.from_dataframe, EnergyLevel.from_dataframe, MultiTerm.from_dataframe, populate_transitions_df', A)], ['atom.levels, atom.transitions'])

p('C24', 'Automatic population creates exactly the allowed transitions',
  "Populating the transitions of an atom for a choice of types adds a transition between every pair of different levels for which one of the chosen types is allowed by the selection rules, adds none for any other pair of different levels, keeps the transitions already present with their data, and is idempotent. "
  "Populating internal transitions adds exactly one transition from each level to itself.",
  ['inputs', 'configurations'], 'all sets of levels (J up to 20), parities and all choices of types',
  'the test of this function is an empty stub.',
  [A], [('Atom.populate_transitions, populate_internal_transitions', A)], ['atom.transitions.keys()'])

p('C25', 'NIST level tables are cleaned without losing or inventing levels',
  "Every row of the NIST ASD level list below the first ionization limit becomes one row per J of the cleaned table, with the same configuration, term, energy and leading percentages.",
  ['inputs'], 'all NIST ASD level lists',
  'the function downloads its input; the tests have no network.',
  [IO], [('load_NIST_data', IO)], ['the returned table'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
