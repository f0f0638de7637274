#!/usr/bin/env python3
"""Authoring source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'INCAR text is read with the meaning VASP gives it',
  "Every well-formed INCAR (one or several `tag = value` items per line separated by `;`, tags in any case, `#` comments, comment-only and blank lines, arbitrary spacing) yields exactly the tags it sets, each with the right Python type and value: integers, floats (including Fortran/E exponents Python can read), logicals (the dotted spellings, .TRUE., .False., .t. and so on), homogeneous lists of those, and strings kept verbatim. "
  "SYSTEM, MAGMOM and M_CONSTR keep their text verbatim, and a trailing comment is attached to its tag and never leaks into a value. "
  "Malformed input (unknown tag while validation is on, an item without or with too many `=`, mixed-type lists) is rejected with its documented exit code rather than being read as something else.",
  ['inputs'], 'all INCAR texts built from the grammar of items, separators, comments, spacing, letter case and value types',
  'The tests read one six-line INCAR and a few literal strings; the type inference, comment splitting and `;` handling are decided per value text, and the tests sample about ten of them.',
  ['parsevasp/incar.py', 'parsevasp/constants.py', 'parsevasp/constants.yml'],
  [('Incar._from_string/_from_list', 'parsevasp/incar.py'), ('IncarItem._clean/_test_types', 'parsevasp/incar.py')],
  ['Incar.get', 'Incar.get_dict', 'Incar.get_string'])
p('C02', 'INCAR round trip loses and changes nothing',
  "Any INCAR that was accepted from text, file or dictionary can be written out and read again to give the same tags, the same typed values and the same comments, whichever of string, path or open file it is written to. "
  "Writing is deterministic and idempotent: each tag occurs once, in alphabetical order of the tag names and in upper case, and writing what was read back gives the same bytes.",
  ['inputs'], 'all accepted INCAR contents that INCAR text can express (typed dictionaries with lists of at least two elements, text for SYSTEM, MAGMOM and M_CONSTR; all accepted texts), all output sinks',
  'The one write test round-trips a single INCAR without comments; value formatting per type and comment placement are never checked against re-reading.',
  ['parsevasp/incar.py', 'parsevasp/base.py', 'parsevasp/utils.py'],
  [('Incar._write / get_string', 'parsevasp/incar.py'), ('BaseParser.write', 'parsevasp/base.py')], ['Incar.write', 'Incar.get_string', 'Incar.get_dict'])
p('C03', 'INCAR edit histories behave like an ordered map of tags',
  "After any sequence of setting, replacing, deleting, querying and writing tags, an INCAR object holds exactly the tags, values and comments that the same sequence leaves in a plain mapping from lower-case tag to (value, comment). "
  "A rejected edit leaves the object as it was, reading never changes it, and objects do not share state.",
  ['histories'], 'all sequences of modify, delete, get, get_dict, get_string, write over the tag space',
  'Tests perform at most one edit on one file and look at one tag afterwards.',
  ['parsevasp/incar.py'], [('Incar.modify / delete / get', 'parsevasp/incar.py')], ['Incar.modify', 'Incar.delete', 'Incar.get', 'Incar.get_dict', 'Incar.get_string'],
  [('entries', 'lower-case tag -> IncarItem', 'parsevasp/incar.py')])
p('C04', 'POSCAR is read with the geometry it describes',
  "For every well-formed VASP 5 POSCAR (any scaling factor greater than zero, direct or Cartesian positions in any accepted header spelling, optional selective dynamics, optional velocities, optional predictor section, extra blanks or trailing newlines) the parsed unit cell is the scaled lattice, and every site carries the species, selective flags, velocity and predictor of its line. "
  "Positions are returned as the direct coordinates of the described point (Cartesian ones converted with the scaled lattice and the same scaling), in file order, or as Cartesian coordinates on request. "
  "VASP 4 files without species names and negative scaling factors are refused with their documented exit codes.",
  ['inputs'], 'all structures (lattices, species runs, positions, flags, velocities, predictors) and all textual layouts of them',
  'Tests read three files that all have scaling 1, direct positions and no Cartesian velocities.',
  ['parsevasp/poscar.py', 'parsevasp/utils.py'], [('Poscar._from_list', 'parsevasp/poscar.py'), ('utils.cart_to_dir / dir_to_cart', 'parsevasp/utils.py')], ['Poscar.get_dict'])
p('C05', 'POSCAR round trip preserves the structure',
  "Writing any structure held by a POSCAR object (read from text or built from a dictionary of sites, as site objects or plain dictionaries) and reading the result gives the same unit cell and the same set of sites with their species, positions, selective flags, velocities and predictors to the written precision, which is the number of decimals asked for (`prec`, 12 if it is not given). "
  "This holds for direct and for Cartesian output and for output to a string, path or open file, the written comment line keeps the original comment and names the compound, and a second write of the same object gives the same text. Building from a dictionary leaves the dictionary and its site objects as they were.",
  ['inputs'], 'all structures, all writer options (direct or Cartesian, preserved or sorted order), all sinks',
  'Tests write three sample files once each and compare selected sites.',
  ['parsevasp/poscar.py', 'parsevasp/base.py'], [('Poscar._write', 'parsevasp/poscar.py'), ('Poscar._sort_and_group_sites', 'parsevasp/poscar.py')], ['Poscar.write', 'Poscar.get_string', 'Poscar.get_dict'])
p('C06', 'POSCAR edits and site ordering act like operations on a list of sites',
  "After any sequence of replacing the comment, unit cell or a site, and deleting sites, the structure equals the one obtained by doing the same to a plain list of sites; a rejected edit changes nothing, and neither other objects nor the dictionaries and lists that were passed in change. "
  "Written output always groups the sites so that the species line and counts describe exactly the positions below them: order-conserving output keeps the site order, otherwise the sites are a permutation in which each species forms one block, rarer species first (species of equal frequency in any order), with the original order kept inside a block.",
  ['histories', 'inputs'], 'all edit sequences on structures with any species multiset and order',
  'Tests modify one site and delete one site of one file.',
  ['parsevasp/poscar.py'], [('Poscar.modify / delete_site', 'parsevasp/poscar.py'), ('Poscar._sort_and_group_sites', 'parsevasp/poscar.py')], ['Poscar.modify', 'Poscar.delete_site', 'Poscar.get_dict', 'Poscar.get_string'],
  [('entries', 'comment, unitcell, sites', 'parsevasp/poscar.py')])
p('C07', 'KPOINTS files are read faithfully in every mode',
  "Every well-formed KPOINTS file is read into its mode (automatic Gamma or Monkhorst-Pack grid with optional shift, generalised regular grid from generating vectors, explicit list with weights, or line mode) with the exact comment, counts, divisions, shifts, centring, generating vectors, points, weights, coordinate type and tetrahedra given in the file. "
  "Letter case and spelling after the significant first letter, extra blanks, trailing comments and trailing newlines do not change the result, nor does it matter whether the text came from a string, a path or an open file. "
  "Unsupported modes and wrong headers are refused with an exit code.",
  ['inputs'], 'all KPOINTS contents of the supported modes and their textual layouts',
  'Tests read one sample of each mode; tetrahedra, shifts, Cartesian lists and trailing text have at most one sample.',
  ['parsevasp/kpoints.py'], [('Kpoints._from_list', 'parsevasp/kpoints.py')], ['Kpoints.get_dict'])
p('C08', 'KPOINTS round trip and edits preserve the sampling',
  "Writing any k-point set (read from text or built from a dictionary) and reading it back gives the same mode, comment, grid, shifts, centring, generating vectors, points, weights, coordinate type and tetrahedra to the number of decimals asked for (`prec`, 9 if it is not given), for every sink, and a second write gives the same text. "
  "After any sequence of edits (replace an entry, replace or delete a point) the object equals a plain model edited the same way; a rejected edit changes nothing, and neither other objects nor the dictionaries and lists that were passed in change.",
  ['inputs', 'histories'], 'all k-point sets in all modes; all edit sequences',
  'Tests write three samples and make one or two edits.',
  ['parsevasp/kpoints.py', 'parsevasp/base.py'], [('Kpoints._write', 'parsevasp/kpoints.py'), ('Kpoints.modify / delete_point', 'parsevasp/kpoints.py')], ['Kpoints.write', 'Kpoints.get_string', 'Kpoints.get_dict', 'Kpoints.modify', 'Kpoints.delete_point'],
  [('entries', 'mode, comment, points, divisions, ...', 'parsevasp/kpoints.py')])
p('C09', 'vasprun.xml trajectories: every ionic step keeps its own geometry and forces',
  "For any vasprun.xml, the initial, last and all-steps unit cells, positions, forces and stress tensors are the numbers printed for exactly that step, in file order and atom order, for any number of atoms (including one) and steps (including one or two). "
  "The initial and last results agree with the corresponding step of the all-steps result, and the species list gives the atoms' elements in order. "
  "The outcome does not depend on how the file was supplied or on which unrelated sections it contains.",
  ['inputs'], 'all atom counts, step counts, cells, forces and stresses; both extraction scopes',
  'Tests look at a static run and one relaxation with fixed atom and step counts.',
  ['parsevasp/vasprun.py'], [('_fetch_upfsw, _fetch_upfiw and related', 'parsevasp/vasprun.py'), ('get_unitcell / get_positions / get_forces / get_stress', 'parsevasp/vasprun.py')],
  ['Xml.get_unitcell', 'Xml.get_positions', 'Xml.get_forces', 'Xml.get_stress', 'Xml.get_species'])
p('C10', 'vasprun.xml energies come from the right step and cycle',
  "For any number of ionic steps and any (possibly different) number of electronic steps in each, every requested energy type is the number printed for that type at that ionic step and, when electronic steps are requested, at that electronic step; the flattened per-cycle arrays concatenate the steps in order and the reported counts of electronic steps are the true ones. "
  "The `initial`, `last` and `all` selections agree with each other, and a missing energy is never filled with another one.",
  ['inputs'], 'all step structures, energy type subsets, selections and both values of the no-electronic-steps option',
  'Tests use files with one or nineteen ionic steps and compare a few lists.',
  ['parsevasp/vasprun.py'], [('_fetch_totensw', 'parsevasp/vasprun.py'), ('get_energies', 'parsevasp/vasprun.py')], ['Xml.get_energies'])
p('C11', 'vasprun.xml band data keep spin, k-point, band and orbital axes apart',
  "For any numbers of k-points and bands, with one or two spin channels, eigenvalues, occupancies, projectors, eigenvelocities, k-point coordinates and weights returned by the parser hold at each (spin, atom, k-point, band, orbital or direction) index exactly the number printed for that index. "
  "The documented axis order is respected, and asking for k-point before band transposes exactly those two axes and nothing else.",
  ['inputs'], 'all combinations of spin, k-point, band, atom and orbital counts, including counts equal to each other or to one',
  'Tests compare corner elements of fixed-size arrays from a handful of files.',
  ['parsevasp/vasprun.py'], [('_fetch_eigenvaluesw, _fetch_projectorsw, _fetch_eigenvelocitiesw', 'parsevasp/vasprun.py')], ['Xml.get_eigenvalues', 'Xml.get_occupancies', 'Xml.get_projectors', 'Xml.get_eigenvelocities', 'Xml.get_kpoints', 'Xml.get_kpointsw'])
p('C12', 'vasprun.xml density of states: every column lands under its own name',
  "For any number of energies, atoms and orbitals, with or without spin and with or without partial contributions, the energy grid, total, integrated and partial densities of states, and the Fermi level are exactly the printed columns for that spin channel and atom. "
  "A grid computed on the interpolated or specific k-point set is reported under its own entry and never mixed with the normal one.",
  ['inputs'], 'all grids, atom counts, orbital counts, spin settings and presence of partial or k-point specific densities',
  'Tests compare a few elements of four files.',
  ['parsevasp/vasprun.py'], [('_fetch_dosw', 'parsevasp/vasprun.py')], ['Xml.get_dos', 'Xml.get_dos_specific', 'Xml.get_fermi_level'])
p('C13', 'vasprun.xml response tensors are returned unmixed',
  "For any system size, the frequency-dependent dielectric function (energy, imaginary and real part, both variants), the macroscopic dielectric tensors, Born effective charges, Hessian, and dynamical-matrix eigenvalues and eigenvectors hold at every index exactly the printed numbers. "
  "A quantity absent from the file is reported as absent, not as another quantity.",
  ['inputs'], 'all system sizes, grids, and subsets of response sections present',
  'Tests compare selected components of two files.',
  ['parsevasp/vasprun.py'], [('_fetch_dielectricsw, _fetch_epsilonw, _fetch_bornw, _fetch_hessian, _fetch_dynmatw', 'parsevasp/vasprun.py')], ['Xml.get_dielectrics', 'Xml.get_epsilon', 'Xml.get_epsilon_ion', 'Xml.get_born', 'Xml.get_hessian', 'Xml.get_dynmat'])
p('C14', 'vasprun.xml run parameters and metadata are reported as printed',
  "The VASP version, system name, Fermi level, k-point mesh divisions, symmetry precision, spin and smearing settings, band, electron and step-limit parameters and the species table returned by the parser are the values printed in the file, for any combination of values and for any order or absence of the other sections. "
  "A parameter absent from the file is reported as absent.",
  ['inputs'], 'all parameter values and subsets, k-point generation schemes and species tables',
  'Tests check a handful of parameters of single files.',
  ['parsevasp/vasprun.py'], [('_fetch_*w scalar readers', 'parsevasp/vasprun.py')], ['Xml.get_version', 'Xml.get_parameters', 'Xml.get_species', 'Xml.get_dict', 'Xml.get_fermi_level'])
p('C15', 'Streaming and in-memory reading of vasprun.xml agree',
  "For any vasprun.xml, of any size and layout of white space, every quantity that the streaming reader supports equals what the in-memory reader returns for the same file. "
  "The result does not depend on where the buffer boundaries of the streaming reader fall, nor on whether the file comes from a path or an open file.",
  ['inputs', 'configurations'], 'all generated vasprun.xml documents, sizes and byte layouts; both readers',
  'The streaming tests repeat the in-memory tests on the same sample files; no test compares the two, and scalars are read at element start where buffer boundaries matter.',
  ['parsevasp/vasprun.py'], [('_parsee', 'parsevasp/vasprun.py'), ('_parsew', 'parsevasp/vasprun.py')], ['Xml(event=True)', 'Xml(event=False)'])
p('C16', 'Damaged vasprun.xml never yields invented numbers',
  "If a vasprun.xml is cut off at any byte, the reader says that it is truncated, and every quantity it still returns equals the value in the undamaged file or a leading part of it (whole ionic steps); it never hangs or fails for a cut after the first complete ionic step. "
  "If any number overflowed to asterisks, the reader stops with its documented error or leaves that quantity out; it never returns a finite number for it.",
  ['crash_points', 'inputs'], 'every byte position at which a run may have died; every numeric field that may have overflowed',
  'Tests contain one overflow file and no truncated file.',
  ['parsevasp/vasprun.py'], [('_check_file / truncated handling', 'parsevasp/vasprun.py'), ('_convert_f, _convert_i and array converters', 'parsevasp/vasprun.py')], ['Xml(...)', 'Xml.truncated'])
p('C17', 'DOSCAR columns are labelled with the quantity they hold',
  "For any DOSCAR (any number of energies and atoms; non-spin, spin-polarised or non-collinear; without, with l- or with lm-decomposed partial densities) the header values, energy grid, total and integrated densities per spin and the partial densities per atom, orbital and spin or magnetisation component are exactly the printed columns. "
  "No column is dropped, duplicated or reported under another name.",
  ['inputs'], 'all grid and atom counts and all supported column layouts',
  'Tests compare shapes and a few non-spin numbers; spin-resolved values are never compared.',
  ['parsevasp/doscar.py'], [('Doscar._from_list', 'parsevasp/doscar.py'), ('dtype tables', 'parsevasp/doscar.py')], ['Doscar.get_metadata', 'Doscar.get_dos', 'Doscar.get_pdos'])
p('C18', 'EIGENVAL is read into the right k-point, band and spin',
  "For any EIGENVAL, with one or two spin channels, with or without occupation columns, for any counts of k-points and bands, the eigenvalues, k-point coordinates, weights and header metadata are exactly the printed numbers at their index. ",
  ['inputs'], 'all counts, spin settings and number layouts',
  'The test reads one file with one k-point and one spin channel.',
  ['parsevasp/eigenval.py'], [('Eigenval._from_list', 'parsevasp/eigenval.py')], ['Eigenval.get_eigenvalues', 'Eigenval.get_kpoints', 'Eigenval.get_metadata'])
p('C19', 'CHGCAR grids keep orientation, normalisation and magnetisation component',
  "For any CHGCAR (non-spin, collinear or non-collinear; any cell, scaling and grid, including grids with equal or unit sizes; with or without augmentation blocks and trailing lines), element [k][j][i] of the returned density is the printed value for grid point (i, j, k), with i running fastest in the file, divided by the cell volume. "
  "The magnetisation densities are the later data sets in file order, and are absent exactly when the file has none.",
  ['inputs'], 'all grids, cells, data set counts and augmentation contents',
  'Tests read three tiny files with one cubic cell.',
  ['parsevasp/chgcar.py'], [('Chgcar._from_list', 'parsevasp/chgcar.py')], ['Chgcar.charge_density', 'Chgcar.magnetization_density'])
p('C20', 'OUTCAR tables are read exactly where they are printed',
  "Symmetry counts, elastic moduli (all variants), the site-projected magnetisation and its total, the magnetisation of the full cell and the run statistics returned from an OUTCAR are the printed numbers (symmetry analyses in order, of other tables the last printed one), for any number of atoms, orbitals and ionic steps, and regardless of unrelated text around them. "
  "A table that is not in the file is reported as absent, a statistic whose number is missing or overflowed as None.",
  ['inputs'], 'all table contents, repetition counts and surrounding text',
  'Tests read three real files with fixed sizes.',
  ['parsevasp/outcar.py'], [('Outcar._from_list', 'parsevasp/outcar.py')], ['Outcar.get_symmetry', 'Outcar.get_elastic_moduli', 'Outcar.get_magnetization', 'Outcar.get_run_stats'])
p('C21', 'OUTCAR run status never reports an unconverged or unfinished run as good',
  "For any history of ionic and electronic iterations with any step limits, the reported last iteration, the finished flag, the step and band limits, and the ionic and electronic convergence verdicts follow from what the file says: finished only if the closing statistics were printed, electronically converged only if the last cycle of a finished run stayed below the electronic limit, ionically converged only if a finished relaxation stopped before its limit, and a breach of the electronic limit is reported if any (or consistently, if every) cycle ran into it. "
  "A file without any iteration is refused with its documented exit code.",
  ['histories', 'crash_points'], 'all iteration histories, limits, relaxation types and truncation points',
  'Tests read six real files, each one history.',
  ['parsevasp/outcar.py'], [('Outcar._from_list run status logic', 'parsevasp/outcar.py')], ['Outcar.get_run_status'])
p('C22', 'Standard-output scanning reports every configured condition, and only those',
  "For any VASP output stream and any user configuration merged over the defaults, the reported entries are exactly those whose pattern occurs (each occurrence in order when the history is kept, once otherwise), plus those inverse conditions whose pattern is missing, each with its configured name, kind, message and location attributes. "
  "Configuration overrides replace exactly what they name, and parsing one stream does not influence another.",
  ['inputs', 'configurations', 'histories'], 'all line sequences mixing triggers and noise; all trigger configurations; repeated use',
  'Tests read three stdout samples with one override.',
  ['parsevasp/stream.py', 'parsevasp/stream.yml'], [('Stream._from_list', 'parsevasp/stream.py'), ('VaspStream, Config', 'parsevasp/stream.py')], ['Stream.entries', 'Stream.configured_streams'])
p('C23', 'POTCAR metadata and symbol are those of the file',
  "For any single POTCAR, every metadata item (title, functional, valence, radii, cut-offs, logicals and the other `KEY = value` items of the header, several per line) is returned under its own name with the right type and value, and the element symbol, full symbol and functional family derived from it follow the title and functional tag. "
  "Asking for an item never changes it, and an item that is not in the header is refused.",
  ['inputs'], 'all header item values, order and spacing',
  'The tests read one POTCAR.',
  ['parsevasp/potcar.py'], [('Potcar._from_list / metadata', 'parsevasp/potcar.py')], ['Potcar.metadata', 'Potcar attributes'])
p('C24', 'Input source and output sink do not matter, and misuse is refused cleanly',
  "For every parser, reading the same content from a path, from an open text file, or (where supported) from a string or list gives the same result, and writing to a path, to an open file or to a string gives the same text. "
  "Missing files, missing or conflicting sources and sinks are refused with the documented exit code and a message to the logger that was given, without touching any file. A caller's open file is not closed; files the package opens itself are.",
  ['inputs', 'configurations'], 'all parsers, contents, sources, sinks and combinations of arguments',
  'Tests try each source once on one content, and hardly any wrong combination.',
  ['parsevasp/base.py', 'parsevasp/utils.py'], [('BaseParser', 'parsevasp/base.py'), ('utils.read_from_file / file_handler', 'parsevasp/utils.py')], ['constructors', 'write'])
p('C25', 'Coordinate and text helpers obey their algebra',
  "Conversion between direct and Cartesian coordinates is linear, matches the lattice-row convention, and is inverted by its counterpart for every non-singular cell of either handedness; the reciprocal lattice satisfies its defining relation. "
  "Number recognition accepts exactly the strings that are numbers, and converting a line of text to a type returns its elements in order, a scalar when there is one.",
  ['inputs'], 'all non-singular cells, points and text lines',
  'The helpers have no direct tests.',
  ['parsevasp/utils.py'], [('cart_to_dir, dir_to_cart, lat_to_reclat, line_to_type, is_number, match_integer_param', 'parsevasp/utils.py')], ['parsevasp.utils'])
p('C26', 'Invalid content is refused before it is used',
  "A dictionary given to Incar, Poscar or Kpoints that is complete and well typed is accepted, whatever the order of its entries, and stays as it was. "
  "A dictionary that lacks a required entry, has a tag of an unknown name (INCAR, with validation on) or holds a value of a wrong type or shape (also a list of mixed kinds, a line break where the file has one line, or KPOINTS entries that contradict the mode or the number of points) is refused at creation with the documented exit code and a message to the logger that was given. "
  "Content that becomes invalid later, by edits, is refused the same way when it is written, before anything is written: an existing target keeps its content, a missing one is not created and an open file gets nothing. Once the content is valid again it can be written.",
  ['inputs', 'histories'], 'all complete dictionaries and all single faults in them; edits that make an object invalid, and every sink',
  'Tests check a few refusals on one dictionary each, and never look at the target of a refused write.',
  ['parsevasp/poscar.py', 'parsevasp/kpoints.py', 'parsevasp/incar.py'], [('Poscar._validate', 'parsevasp/poscar.py'), ('Kpoints._validate', 'parsevasp/kpoints.py'), ('Incar.validate, IncarItem._clean_entry', 'parsevasp/incar.py'), ('BaseParser.write', 'parsevasp/base.py')], ['Incar', 'Poscar', 'Kpoints', 'write'])
p('C27', 'Parser objects are independent and queries repeatable',
  "Any number of parser objects of any kinds, reading the same or different files, may be created, queried, written and dropped in any order, with refused files in between and one read during the reading of another: every query on an object gives what the same query gives on a fresh object of the same content that was asked nothing else. "
  "Asking twice gives the same answer, no query changes the answer of another, no file is left behind, and creating more objects does not multiply the log output.",
  ['histories'], 'all histories of creation, query, writing and disposal over all parsers',
  'Tests use one object per file and ask each question once.',
  ['parsevasp'], [('BaseParser.__init__, _setup_logger', 'parsevasp/base.py'), ('get_ methods of all parsers', 'parsevasp')], ['all parser classes'])
p('C28', 'Contradictions in vasprun.xml are refused',
  "A vasprun.xml whose sections contradict each other is never turned into data: when the number of rows of eigenvalues, eigenvelocities or projectors is not what spins, k-points, bands and atoms make it, when NBANDS, ISPIN or the k-points these need are missing, or when an element is unknown, the reader logs an error and exits with the documented code. "
  "A reported section with a row of too few or too many numbers, or with text in place of a number (also a number only the start of which can be read), is refused with an error. Whether the file is read by events or in memory makes no difference.",
  ['inputs'], 'all documents of all kinds of runs, with one contradiction anywhere in what is reported',
  'Tests read correct files only; a wrong shape that happens to fit silently permutes or repeats data.',
  ['parsevasp/vasprun.py'], [('_extract_eigenvalues, _extract_eigenvelocities, _extract_projectors', 'parsevasp/vasprun.py'), ('_convert_row, _convert_species', 'parsevasp/vasprun.py')], ['Xml'])
p('C29', 'Damaged output files never yield invented numbers',
  "An EIGENVAL, DOSCAR, CHGCAR, OUTCAR, CONTCAR/POSCAR or KPOINTS file that is cut at any point (a run that was killed, a disk that was full), or in which a number has overflowed its field (*****) or run into its neighbour, is either refused with an error, or every answer is that of the undamaged file or a leading part of it: "
  "nothing behind the damage is filled with zeros, repeated, taken from another place or mixed with an older table. Of tables that OUTCAR prints repeatedly the last complete one counts.",
  ['inputs', 'crash_points'], 'all files, all cut positions and all damaged numbers',
  'Tests read complete files only.',
  ['parsevasp'], [('Eigenval._from_list', 'parsevasp/eigenval.py'), ('Doscar._from_list', 'parsevasp/doscar.py'), ('Chgcar._from_file', 'parsevasp/chgcar.py'), ('Outcar._from_list', 'parsevasp/outcar.py')], ['Eigenval', 'Doscar', 'Chgcar', 'Outcar', 'Poscar', 'Kpoints'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
