"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

TEN = ('entry-by-entry equality is required for every value of every '
       'integral and amplitude; tests compare two implementations of the '
       'package with each other at a few random points and one or two equal '
       'orbital-space sizes, so a term wrong in both, or visible only for '
       'unequal sizes, non-symmetric Fock matrices or complex values, stays '
       'hidden')

P = [
 ('C01', 'CCSD amplitude equations equal the projected Schroedinger equation',
  'For any Fock matrix, any antisymmetric two-electron integrals and any '
  'single and antisymmetric double amplitudes, every CCSD residual routine '
  'returns exactly the singles and doubles projections of the '
  'similarity-transformed Hamiltonian, in the array layout virtual, occupied '
  '/ virtual, virtual, occupied, occupied. All CCSD routines therefore agree '
  'with each other.',
  ['inputs'], 'all real or complex values of Fock matrix, integrals and '
  'amplitudes, non-symmetric Fock matrices included, every number of '
  'occupied and virtual orbitals', TEN,
  ['cqcpy/cc_equations.py'],
  [('intermediates and contractions of the CCSD equations',
    'cqcpy/cc_equations.py: ccsd_simple, ccsd_stanton')]),
 ('C02', 'CCD, linearized CC, ladder and ring amplitude equations are exact',
  'The doubles-only and the linearized routines return exactly the '
  'corresponding projections of the similarity-transformed Hamiltonian '
  '(truncated to terms linear in the amplitudes for the linearized ones) for '
  'any integrals and amplitudes. The ladder routine returns the '
  'particle-particle and hole-hole ladder terms and the ring routine the '
  'direct ring (random-phase) terms, always as a doubles-shaped array.',
  ['inputs'], 'all values of the integrals and doubles amplitudes, every '
  'orbital-space size', TEN + '; the linearized, ladder and ring routines '
  'are not tested at all',
  ['cqcpy/cc_equations.py'],
  [('CCD / LCC / ladder / ring contractions',
    'cqcpy/cc_equations.py: ccd_simple, ccd_stanton, lccd_simple, '
    'lccsd_simple, ccd_ladder_simple, ccd_ring_simple')]),
 ('C03', 'Correlation energies equal the energy projection for any amplitudes',
  'For any amplitudes and integrals the coupled-cluster energy equals the '
  'reference expectation value of the similarity-transformed Hamiltonian in '
  'the spin-orbital, unrestricted and restricted forms, and the pieces add '
  'up to the total. The second-order perturbation forms equal the part that '
  'is linear in the amplitudes.',
  ['inputs'], 'all values of integrals and amplitudes, equal or unequal '
  'alpha and beta spaces', 'tests evaluate a few molecules and random '
  'draws at one size; several energy routines are never called',
  ['cqcpy/cc_energy.py'],
  [('energy contractions', 'cqcpy/cc_energy.py')]),
 ('C04', 'Unrestricted CCSD equations equal the spin-orbital equations',
  'For any alpha and beta Fock matrices, integrals and amplitudes, with any '
  '(possibly different) numbers of alpha and beta orbitals, the unrestricted '
  'CCSD residuals equal the alpha, beta, alpha-alpha, alpha-beta and '
  'beta-beta projections of the similarity-transformed Hamiltonian.',
  ['inputs', 'configurations'], 'all values; all combinations of alpha and '
  'beta occupied and virtual counts', TEN,
  ['cqcpy/cc_equations.py'],
  [('unrestricted intermediates', 'cqcpy/cc_equations.py: uccsd_stanton and '
    'its helpers')]),
 ('C05', 'Restricted CCSD equations equal the spin-orbital equations',
  'For any closed-shell Fock matrix, integrals and amplitudes the restricted '
  'CCSD residuals equal the singles and opposite-spin doubles projections of '
  'the similarity-transformed Hamiltonian of the corresponding spin-orbital '
  'problem.', ['inputs'], 'all values of closed-shell integrals and '
  'amplitudes, every orbital-space size', TEN,
  ['cqcpy/cc_equations.py'],
  [('restricted intermediates', 'cqcpy/cc_equations.py: rccsd_stanton and '
    'its helpers')]),
 ('C06', 'Lambda equations are the derivative of the CC Lagrangian',
  'For any integrals, amplitudes and multipliers every Lambda routine '
  'returns exactly the derivative of the coupled-cluster Lagrangian with '
  'respect to the singles and doubles amplitudes, whether or not '
  'precomputed intermediates are passed in. All variants therefore agree '
  'with each other.', ['inputs'], 'all values of integrals, amplitudes and '
  'multipliers, every orbital-space size', TEN,
  ['cqcpy/cc_equations.py'],
  [('Lambda contractions and shared intermediates',
    'cqcpy/cc_equations.py: ccsd_lambda_*, ccd_lambda_simple, lambda_int')]),
 ('C07', 'Unrestricted Lambda equations equal the spin-orbital derivative',
  'For any alpha and beta integrals, amplitudes and multipliers, with any '
  'numbers of alpha and beta orbitals, the unrestricted Lambda routine '
  'returns the alpha, beta and mixed blocks of the derivative of the '
  'coupled-cluster Lagrangian.', ['inputs', 'configurations'],
  'all values; all combinations of alpha and beta space sizes', TEN,
  ['cqcpy/cc_equations.py'],
  [('unrestricted Lambda contractions',
    'cqcpy/cc_equations.py: uccsd_lambda_opt')]),
 ('C08', 'Restricted Lambda equations equal the spin-orbital derivative',
  'For any closed-shell integrals, amplitudes and multipliers the restricted '
  'Lambda routine returns the singles and opposite-spin doubles blocks of '
  'the derivative of the coupled-cluster Lagrangian of the corresponding '
  'spin-orbital problem.', ['inputs'], 'all values of closed-shell '
  'integrals, amplitudes and multipliers, every orbital-space size', TEN,
  ['cqcpy/cc_equations.py'],
  [('restricted Lambda contractions',
    'cqcpy/cc_equations.py: rccsd_lambda_opt')]),
 ('C09', 'Reduced density matrices are derivatives of the CC Lagrangian',
  'Every block of the one- and two-particle reduced density matrices equals '
  'the derivative of the coupled-cluster Lagrangian with respect to the '
  'matching Fock or integral entry, for any amplitudes and multipliers and '
  'any weight of the reference term. The plain and the optimized variants '
  'of a block are interchangeable.', ['inputs'],
  'all values of amplitudes, multipliers and the reference weight, every '
  'orbital-space size', TEN + '; a reference weight other than one is never '
  'tested', ['cqcpy/cc_equations.py'],
  [('density-matrix contractions',
    'cqcpy/cc_equations.py: ccsd_1rdm_*, ccsd_2rdm_*')]),
 ('C10', 'Unrestricted density matrices equal the spin-orbital blocks',
  'For any alpha and beta amplitudes and multipliers, any numbers of alpha '
  'and beta orbitals and any weight of the reference term, the unrestricted '
  'density-matrix blocks equal the corresponding spin blocks of the '
  'derivative of the coupled-cluster Lagrangian.',
  ['inputs', 'configurations'], 'all values; all combinations of alpha and '
  'beta space sizes', TEN, ['cqcpy/cc_equations.py'],
  [('unrestricted density-matrix contractions',
    'cqcpy/cc_equations.py: uccsd_1rdm_*, uccsd_2rdm_*')]),
 ('C11', 'Restricted density matrices equal the spin-orbital blocks',
  'For any closed-shell amplitudes and multipliers and any weight of the '
  'reference term the restricted density-matrix blocks equal the '
  'corresponding blocks of the derivative of the coupled-cluster Lagrangian '
  'of the spin-orbital problem.', ['inputs'],
  'all values, every orbital-space size', TEN, ['cqcpy/cc_equations.py'],
  [('restricted density-matrix contractions',
    'cqcpy/cc_equations.py: rccsd_1rdm_*, rccsd_2rdm_*')]),
 ('C12', 'Tensor routines are pure: no mutation, no memory, no shared output',
  'Calling an amplitude, Lambda, density-matrix, energy or conversion '
  'routine leaves every array passed in unchanged, and the result depends '
  'only on the current argument values, never on earlier calls or on values '
  'the same arrays held before. Writing into a returned result changes '
  'neither the arguments nor the result of a later call (routines that only '
  'cut blocks out of a larger array may hand out views).',
  ['histories', 'inputs'], 'sequences of calls with other values, the same '
  'values, and the same arrays modified in place; all argument values',
  'tests call each routine once per input and never look at the arguments '
  'afterwards', ['cqcpy/cc_equations.py', 'cqcpy/cc_energy.py',
                 'cqcpy/spin_utils.py'],
  [('copies and fresh accumulators before in-place updates',
    'cqcpy/cc_equations.py, cqcpy/spin_utils.py')]),
 ('C13', 'Alpha/beta and spin-orbital Fock and amplitudes convert losslessly',
  'Converting alpha and beta Fock blocks, amplitudes or denominators to '
  'spin-orbital arrays places every entry (real or complex) at the position '
  'and with the sign of its spin orbitals and fills spin-forbidden entries '
  'with zero. Converting back returns exactly the original blocks, for any '
  'numbers of alpha and beta orbitals.', ['inputs', 'configurations'],
  'all values; all combinations of occupied and virtual counts including '
  'unequal and empty spaces', 'tests check one direction on equal sizes; '
  'several conversions are never called',
  ['cqcpy/spin_utils.py'],
  [('block placement and sign of exchanged spin blocks',
    'cqcpy/spin_utils.py: F_to_*, T1_to_*, T2_to_*, D2_to_spin')]),
 ('C14', 'Spin-blocked integrals convert to antisymmetrized spin orbitals',
  'Converting alpha, beta and mixed two-electron integral blocks to spin '
  'orbitals yields exactly the antisymmetrized integrals over all spin '
  'orbitals, with zero where spin forbids, for real or complex integrals and '
  'any numbers of alpha and beta orbitals. The inverse conversion recovers '
  'the blocks.', ['inputs', 'configurations'],
  'all values; all combinations of occupied and virtual counts',
  'tests check one equal-size random example per routine',
  ['cqcpy/spin_utils.py'],
  [('placement of direct and exchange blocks',
    'cqcpy/spin_utils.py: int_to_spin, int_to_spin2, int_to_spin_block, '
    'int_to_spatial')]),
 ('C15', 'Excitations of determinants carry the right string and sign',
  'Moving an electron of a determinant from one orbital to another gives the '
  'determinant with exactly that change and the fermionic sign of the '
  'operator pair, is refused exactly when the source is empty or the target '
  'is filled, and keeps the original determinant unchanged; source equal to '
  'target acts as the number operator. Excitation level and difference '
  'count exactly the differing orbitals, equality means equal '
  'occupations, and a string whose length contradicts its stated number of '
  'orbitals is refused.', ['inputs'], 'all occupations and orbital pairs',
  'tests try a handful of strings', ['cqcpy/ci_utils.py'],
  [('parity of the electrons between the two orbitals',
    'cqcpy/ci_utils.py: Dstring.excite, level, diff')]),
 ('C16', 'Determinant lists and CI bases are complete and free of repeats',
  'The lists of singles, doubles, triples and quadruples contain every '
  'determinant of that excitation rank from the reference exactly once and '
  'nothing else, for any reference occupation. Truncated CI bases start with '
  'the reference and contain every determinant with conserved particle '
  'numbers up to the rank exactly once.', ['inputs', 'configurations'],
  'all reference occupations, orbital counts and electron counts',
  'tests check lengths for one system; triples and quadruples are not '
  'tested', ['cqcpy/ci_utils.py'],
  [('nested excitation loops', 'cqcpy/ci_utils.py: *_strings, *_basis')]),
 ('C17', 'Hamiltonian matrix elements follow the Slater-Condon rules',
  'The matrix element of the Hamiltonian between any two determinants with '
  'equal particle numbers has the value and sign given by the '
  'second-quantized operators, for any one- and two-electron integrals, in '
  'the spin-orbital and the alpha/beta form. A constant shift enters the '
  'diagonal and nothing else.', ['inputs'],
  'all pairs of determinants, all integrals',
  'tests diagonalize one molecule, so signs that leave its eigenvalues alone '
  'and rarely reached orbital orders are not seen',
  ['cqcpy/ci_utils.py'],
  [('case split by excitation rank and phase factors',
    'cqcpy/ci_utils.py: ci_matrixel, gci_matrixel')]),
 ('C18', 'Operators applied to CI vectors equal their matrix in the basis',
  'Applying the Hamiltonian or one or two orbital excitations to a CI vector '
  'returns the exact projection of the operator product onto the given '
  'determinant basis, in whatever order the basis lists the determinants. '
  'The vector passed in is left unchanged.',
  ['inputs', 'configurations'], 'all vectors, integrals, orbital indices '
  '(repeated indices included) and basis orders',
  'tests only cover the lowest eigenvalue of one molecule; excitation '
  'operators on vectors are never called', ['cqcpy/ci_utils.py'],
  [('loops over the basis and index lookup',
    'cqcpy/ci_utils.py: H_on_vec, gH_on_vec, *_on_vec')]),
 ('C19', 'CI coefficients of a CC state equal the exponential expansion',
  'Expanding coupled-cluster amplitudes into CI coefficients through any '
  'supported rank gives, for every determinant of the matching basis, '
  'exactly its coefficient in the exponential of the cluster operator acting '
  'on the reference. Other ranks, and alpha and beta spaces with different '
  'numbers of orbitals, are refused.', ['inputs', 'configurations'],
  'all amplitudes, every orbital-space size, every rank',
  'no test calls the expansion routines', ['cqcpy/ci_utils.py'],
  [('sum over all products of amplitudes',
    'cqcpy/ci_utils.py: makeCfromT, gmakeCfromT')]),
 ('C20', 'Boson strings and vibrational CI bases are complete and exact',
  'Raising or lowering a mode changes the quanta of that mode by one and '
  'nothing else, and lowering an empty mode is refused. The vibrational '
  'bases contain every distribution of up to one (singles) or two (doubles) '
  'quanta over the modes exactly once, starting from the vacuum.',
  ['inputs', 'configurations'], 'all occupations, modes and numbers of '
  'modes', 'no test covers them', ['cqcpy/ci_utils.py'],
  [('copy before update, nested mode loops',
    'cqcpy/ci_utils.py: Pstring, s_pstrings, d_pstrings, vcis*_basis')]),
 ('C21', 'Fermi occupations are accurate for every temperature and energy',
  'For every inverse temperature, energy and chemical potential the Fermi '
  'function and its complement are finite, lie between zero and one (to '
  'rounding), and '
  'agree with the exact distribution to a relative accuracy of one part in a '
  'billion (until they underflow). The vector forms return the same values '
  'element by element, also for integer energies.', ['inputs'],
  'all positive inverse temperatures, all energies and chemical potentials',
  'tests sample a few values; the tails and the switch-over points are not '
  'reached', ['cqcpy/ft_utils.py'],
  [('switch to asymptotic forms in both tails',
    'cqcpy/ft_utils.py: fermi_function, vfermi_function, ff, ffv')]),
 ('C22', 'Zeroth-order grand potentials are accurate in every regime',
  'For every inverse temperature, energy and chemical potential the '
  'zeroth-order grand potential of a level is finite and agrees with minus '
  'the logarithm of the one-level partition function over the inverse '
  'temperature to a relative accuracy of one part in ten thousand. The '
  'vector and alpha/beta forms return the same values element by element.',
  ['inputs'], 'all positive inverse temperatures, all energies and chemical '
  'potentials', 'tests use one temperature and a few levels',
  ['cqcpy/ft_utils.py'],
  [('switch to asymptotic forms in both tails',
    'cqcpy/ft_utils.py: grand_potential0, GP0, uGP0')]),
 ('C23', 'Temperature derivatives of the grand potential are accurate',
  'For every inverse temperature, energy and chemical potential the '
  'derivative routine returns the derivative of the exact zeroth-order grand '
  'potential of a level with respect to the inverse temperature to a '
  'relative accuracy of one part in ten thousand, always finite, also in '
  'vector form.', ['inputs'], 'all positive inverse temperatures, all '
  'energies and chemical potentials',
  'tests use one finite-difference point', ['cqcpy/ft_utils.py'],
  [('switch to asymptotic forms in both tails',
    'cqcpy/ft_utils.py: dgrand_potential0, dGP0')]),
 ('C24', 'Molecular integral transformations follow the stated notation',
  'For any orbital coefficient matrices (different ones in each slot) the '
  'chemists\' and physicists\' routines return the atomic-orbital integrals '
  'transformed in that index order, antisymmetrized when requested, and the '
  'spin-orbital forms place alpha and beta blocks with zeros where spin '
  'forbids.', ['inputs', 'configurations'], 'all coefficients and '
  'atomic-orbital integrals, all slot sizes',
  'tests pass the same coefficients in most slots and compare the routines '
  'with each other', ['cqcpy/integrals.py'],
  [('argument order, transpositions and block placement',
    'cqcpy/integrals.py: get_chem*, get_phys*')]),
 ('C25', 'Integral block objects hold exactly the requested blocks',
  'Building integral blocks from a mean-field object stores, for every '
  'selection code, exactly the selected occupied/virtual blocks of the '
  'antisymmetrized spin-orbital integrals in physicists\' order, for '
  'restricted and unrestricted, molecular and periodic references and any '
  'occupation pattern, and says truthfully which blocks are present.',
  ['inputs', 'configurations'], 'all coefficients, integrals, occupation '
  'patterns and selection codes', 'tests use the default code on one '
  'molecule', ['cqcpy/integrals.py'],
  [('block selection and occupation masks',
    'cqcpy/integrals.py: eri_blocks')]),
 ('C26', 'Periodic integrals use the right orbitals at the right momenta',
  'Periodic integral routines return the density-fitted transformation with '
  'each coefficient at its own momentum in the stated index order, '
  'antisymmetrized when requested, and zero when crystal momentum is not '
  'conserved. The full table contains, for every three momenta, the block '
  'completed by momentum conservation, together with the one-electron part.',
  ['inputs', 'configurations'], 'all coefficients and integrals, all momentum '
  'conservation tables', 'tests cover one small cell',
  ['cqcpy/integrals.py'],
  [('momentum bookkeeping', 'cqcpy/integrals.py: get_*_sol, get_*_solk, '
    'get_solk_integrals')]),
 ('C27', 'Occupied/virtual blocks partition an integral tensor exactly',
  'Splitting a four-index tensor into occupied/virtual blocks puts every '
  'entry of the tensor in the block named by its four indices, at the right '
  'position, for any four occupied and virtual counts. Blocks are never '
  'mixed up or dropped, and a tensor whose shape contradicts the counts is '
  'refused.', ['inputs', 'configurations'],
  'all tensors and all combinations of counts', 'tests use equal counts on '
  'every index', ['cqcpy/ov_blocks.py'],
  [('slicing by occupied counts', 'cqcpy/ov_blocks.py')]),
 ('C28', 'Block-diagonal matrices and energy denominators are exact',
  'Block-diagonal assembly keeps every entry of both matrices, of any shape '
  'and real or complex, and is zero elsewhere. Energy denominators equal '
  'virtual minus occupied energies at every index, with alpha and beta '
  'energies on their own indices.', ['inputs', 'configurations'],
  'all values and sizes', 'tests use square blocks and equal sizes',
  ['cqcpy/utils.py'],
  [('stacking and broadcasting', 'cqcpy/utils.py')]),
 ('C29', 'Random test tensors have their promised symmetries for every draw',
  'Whatever the random generator returns, the random integrals, amplitudes '
  'and multipliers have exactly the index symmetries their names promise, '
  'the stated shapes, and blocks that are consistent with one common '
  'tensor.', ['inputs', 'configurations'], 'all draws and sizes',
  'tests consume the tensors without checking them',
  ['cqcpy/test_utils.py'],
  [('symmetrization steps', 'cqcpy/test_utils.py')]),
 ('C30', 'Determinant, thermal and integral routines have no memory',
  'The result of a determinant-list, CI, thermal or integral routine depends '
  'only on the arguments of that call: earlier calls with other sizes, '
  'references, molecules, orbitals, momentum grids, temperatures or energies, '
  'and anything the caller writes into earlier results or into arrays passed '
  'before, never show up in a later result. Arguments are left unchanged, '
  'and a result already handed out is not altered by a later call.',
  ['histories', 'inputs'], 'sequences of calls that differ in one or in all '
  'arguments, with results and arguments overwritten in between',
  'tests call each routine for one system per process and never reuse or '
  'overwrite arrays between calls',
  ['cqcpy/ci_utils.py', 'cqcpy/ft_utils.py', 'cqcpy/integrals.py'],
  [('no caches: lists, arrays and tables are rebuilt in every call',
    'cqcpy/ci_utils.py, cqcpy/ft_utils.py, cqcpy/integrals.py')]),
 ('C31', 'Thermal energies convert to kelvin with the right factor',
  'Converting a thermal energy in hartree to kelvin multiplies it by 315775 '
  '(hartree over the Boltzmann constant, to a relative accuracy of one part '
  'in a hundred thousand) for every value, positive, negative or zero, '
  'entry by entry for arrays, and leaves the argument unchanged.',
  ['inputs'], 'all real temperatures, scalars and arrays',
  'no test covers the conversion', ['cqcpy/ft_utils.py'],
  [('two physical constants and one quotient', 'cqcpy/ft_utils.py: HtoK')]),
 ('C32', 'Groups of coupled-cluster terms are added with the given prefactor',
  'A routine that adds one group of coupled-cluster terms to arrays owned by '
  'the caller adds exactly the prefactor times the group, whatever the arrays '
  'contained before, and changes none of its other arguments. A group named '
  'after an order in the amplitudes and multipliers contains the terms of '
  'that order and no others.', ['inputs'],
  'all real prefactors, all previous contents, all amplitudes, multipliers '
  'and integrals; general, unrestricted and restricted routines',
  'within the package the prefactor is always one and the arrays start from '
  'known contents; packages for thermal coupled cluster use the routines '
  'with integration weights', ['cqcpy/cc_equations.py'],
  [('one routine per group, each with a factor defaulting to one',
    'cqcpy/cc_equations.py')]),
]

LEVEL_NOTE = (
    'Bounded: within the sizes listed in the evidence file the claim holds '
    'for every real (or complex) input value, decided by z3. Larger sizes '
    'are not covered. Trusted: the numpy/pyscf stand-ins, which are checked '
    'against the real libraries at sampled points on every run, exact '
    'arithmetic in place of floating point, and z3.')
LEVEL_FT = (
    'Bounded by an interval model of exp and log: holds for every real '
    'argument in the stated range, decided by z3 over axioms for exp and log '
    'and a rounding term per sensitive addition. Trusted: those axioms and '
    'z3.')
TECH = ('symbolic execution of the real source; z3 decides each obligation '
        'over all inputs; counterexamples replayed on the real code')


def have(pid):
    return os.path.exists(os.path.join(ROOT, 'vf', 'props',
                                       pid.lower() + '.py'))


def main():
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for pid, title, st, over, qt, why, files, mech in P:
            if not have(pid):
                continue
            assert len(title) <= 80, title
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': st,
                'quantifier': {'over': over, 'text': qt},
                'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [
                    {'name': n, 'where': w} for n, w in mech],
                    'hook_needed': None}}) + '\n')
            checks.append({
                'property': pid,
                'quick_cmd': '/opt/venv/bin/python check.py %s' % pid,
                'thorough_cmd': '/opt/venv/bin/python check.py %s --tier '
                'thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECH,
                'level': 'model_checking',
                'level_note': LEVEL_FT if pid in ('C21', 'C22', 'C23')
                else LEVEL_NOTE})
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python check.py --selftest',
           'checks': checks, 'not_applicable': [],
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed; the '
                     'checks load the source files of /repo directly',
                     'source_commits': []},
           'notes': 'Known and fixed findings: known_findings.txt. Design '
           'and bug log: DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
