D = "source/descriptor/"
prop("C05", "Owning C++ objects behave as values",
     "Copying, assigning, moving and destroying structures, supercells, bin lists, neighbour lists and the descriptor objects of the MTP and DeepPot families behaves like a value type in every order: a copy equals its source and stays independent of it, an assigned or moved-to object carries exactly the source's state, self-assignment changes nothing, default-constructed objects can be copied, assigned and destroyed, and over any history no memory is used after release, released twice, read outside its allocation or left allocated.",
     ["inputs", "histories"], "all sequences of construct, copy, move, copy-assign, move-assign, self-assign and destroy over objects of different sizes, including default-constructed and moved-from ones",
     "The tests copy one object once and print it; a use-after-free or a leak does not make them fail.",
     [NB + "structure.h", NB + "binLinkedList.h", NB + "neighborList.h", D + "deepmd/include/se.h", D + "mtp/include/mtpMRadial.h", D + "mtpr/include/basis.h", D + "mtpr/src/mtpParam.cc", D + "mtp/src/mtpLevel.cc"],
     [{"name": "rule-of-five members", "where": "copy/move constructors, operator=, destructors"}],
     "runtime monitor (random ownership histories, state fingerprints, allocator balance) + ASan/UBSan",
     "Randomised histories over a pool of objects; the allocator balance is counted by a wrapper around malloc and new.")
DP, MTP, MTPR = D + "deepmd/include/", D + "mtp/", D + "mtpr/"
prop("C06", "Switching functions join their plateaus smoothly and exactly",
     "Every C++ switching function equals the quintic that falls from one at the inner radius to zero at the cutoff, with the matching analytic derivative, and is exactly zero, derivative included, from the cutoff outwards. Below the inner radius the DeepPot switch (and the one of the single-distance Chebyshev basis) is exactly one with zero derivative, while the MTP switch vanishes there; the smoothed inverse distance is the DeepPot switch divided by the distance and is zero at zero distance. The linear map onto the Chebyshev interval sends the inner radius to -1 and the cutoff to 1. Copies carry the same parameters.",
     ["inputs"], "all inner radii and cutoffs (narrow, wide, integral), distances on, one ulp beside and far from both radii, float and double",
     "Tests evaluate a handful of round distances; wrong branches one ulp beside a radius or in single precision stay invisible.",
     [DP + "se.h", DP + "envMatrix.h", MTP + "include/mtpMRadial.h", MTP + "include/mtpMRadial_de.h", MTPR + "include/basis.h"],
     [{"name": "piecewise switch", "where": "SwitchFunc, MtpSwitchFunc1, MtpSwitchFunc2, SwitchFunction, smooth_func, recip"}],
     "runtime monitor (closed form in extended precision) + ASan/UBSan",
     "Randomised exploration with rounding-aware tolerances; the MTPR switch is only defined between its two radii and judged there.")
prop("C10", "Chebyshev radial bases and their derivatives are right",
     "For every order, cutoff pair and distance, each radial basis object returns the Chebyshev polynomials of the mapped distance, their derivatives with respect to the mapped distance and to the distance, and the same multiplied by the switching function with the product-rule derivative. The MTP bases vanish, derivatives included, outside their half-open range. Rebuilding an object for another distance leaves nothing of the previous one, and objects release what they allocate.",
     ["inputs", "histories"], "basis sizes 1..13, all radii pairs, sequences of distances inside, outside and on the ends of the range through the same object, float and double",
     "Tests print the values for one distance and never rebuild an object for a distance outside the range.",
     [MTP + "include/mtpMRadial.h", MTP + "include/mtpMRadial_de.h", MTPR + "include/basis.h"],
     [{"name": "Chebyshev recurrence", "where": "ChebyshevPoly::build, MtpQ::build, RB_Chebyshev::build, RQ_Chebyshev::build, RadialBasisChebyshev"}],
     "runtime monitor (closed form in extended precision, object reuse) + ASan/UBSan",
     "Randomised exploration; the MTPR bases are judged on their closed range only.")
prop("C07", "DeepPot descriptors describe exactly the neighbours within the cutoff",
     "For every structure, or neighbour table passed by the caller, each row of the DeepPot descriptor belongs to the stated centre atom and each slot to one of its neighbours of the slot's species, in neighbour-list order, with the value built from that neighbour's displacement and the switching function (smoothed inverse distance and its products with the direction cosines, or the environment matrix); neighbours of other species never appear, unused slots are zero, and relative coordinates and neighbour indices exported alongside refer to the same neighbour as the descriptor slot, with -1 marking empty slots.",
     ["inputs", "configurations"], "all structures, species subsets and orders, cutoffs, padding widths from the exact maximum upwards, sorted and unsorted lists, arbitrary neighbour tables, float and double",
     "Tests print one MoS2 descriptor; misplaced slots, a wrong species offset or stale padding do not fail them.",
     [DP + "se.h", DP + "se4pw.h", DP + "envMatrix.h"],
     [{"name": "per-species slots", "where": "PairTildeR::generate, TildeR::generate, Se4pw::generate, EnvMatrix::find_value_deriv"}],
     "runtime monitor (independent slot-by-slot recomputation) + ASan/UBSan",
     "Randomised exploration; widths below the true maximum are outside the contract.")
prop("C08", "DeepPot descriptor derivatives match the descriptor",
     "Every derivative table of the DeepPot descriptors equals the analytic derivative of the value in the same slot: with respect to the centre atom's position for the TildeR family and Se4pw, with respect to the displacement for the environment matrix. It vanishes in empty slots and beyond the cutoff, and computing it leaves no memory allocated.",
     ["inputs", "configurations"], "the same space as the descriptor values, both the returning and the filling interfaces",
     "Tests print derivatives; forces built from a wrong sign or a wrong term in one component still look plausible.",
     [DP + "se.h", DP + "se4pw.h", DP + "envMatrix.h"],
     [{"name": "chain rule per slot", "where": "PairTildeR::deriv, TildeR::deriv, Se4pw::generate, EnvMatrix::find_value_deriv"}],
     "runtime monitor (analytic chain rule oracle, slot by slot) + ASan/UBSan",
     "Randomised exploration; widths below the true maximum are outside the contract.")
prop("C13", "The MTP level enumeration is complete and free of repeats",
     "For every level, the listed coefficient-pair combinations are exactly the multisets of (mu, nu) pairs whose levels 2+4mu+nu add up to it, each stored with tensor ranks descending; the basis up to a maximum level holds exactly those of them that contract to a scalar (a lone rank-zero tensor, one rank equal to the sum of the others, or every non-zero rank an even number of times), each once and in ascending level, and its reported size, maximum level and number of radial functions agree with its contents.",
     ["inputs"], "all maximum levels up to 28, and arbitrary lists of combinations for the contraction rule",
     "Tests compare the list sizes of a few levels (partly as lower bounds), not the contents.",
     [MTP + "src/mtpLevel.cc", MTP + "include/mtpLevel.h"],
     [{"name": "recursive enumeration", "where": "MtpMCoeffPairCombs::get_all_schemes4lev"}, {"name": "contraction rule", "where": "get_contracted_combs, _build"}],
     "runtime monitor (independent enumeration, set comparison) + ASan/UBSan",
     "Exhaustive over levels up to 24 (quick) or 28 (thorough); randomised for the contraction rule.")
prop("C14", "MTP template files load exactly or are refused cleanly",
     "Loading an MTP template gives exactly the counts, index tables and moment mapping written in the file, also when loading into an object that already holds one, and the shipped templates are self-consistent. A file that is absent, truncated, lacks or reorders a key, has a non-numeric or negative count, a non-numeric table entry or fewer entries than announced raises MtpException and nothing else, without memory errors or leaked memory.",
     ["inputs", "fault points"], "all table sizes, truncation at any byte, every key and count damaged in turn, random byte damage",
     "Tests load intact templates only.",
     [MTPR + "src/mtpParam.cc", MTPR + "include/mtpParam.h", MTPR + "MTP_templates"],
     [{"name": "template parser", "where": "MtpParam::_load"}],
     "runtime monitor (generated files with known contents, fault injection, allocator balance) + ASan/UBSan",
     "Randomised exploration; the line layout of the shipped templates is assumed.")
prop("C15", "Core containers and vector algebra are exact and memory safe",
     "Aligned arrays start on a 16-byte boundary, report the size last asked for, keep what was written until resized, and copies own their memory; multi-dimensional arrays have every element addressable and distinct, are zeroed when asked, and are released completely by the matching call; dot, cross, norm, normalisation, repeated outer products and every Vec3 operator equal their mathematical definition up to rounding.",
     ["inputs", "histories"], "all sizes including zero, element types, histories of resize, write, copy and assign, vectors of any magnitude, tensor ranks 1..6",
     "Tests touch one size and type each; out-of-bounds access, aliasing copies and leaks do not make them fail.",
     ["source/core/include/AlignedArray.h", "source/core/include/arrayUtils.h", "source/core/include/vec3Operation.h", "source/core/include/vecx.h"],
     [{"name": "allocation helpers", "where": "AlignedArray, allocate3dArray..5dArray, RecursionOuterProduct"}],
     "runtime monitor (reference models, allocator balance) + ASan/UBSan",
     "Randomised exploration.")
prop("C09", "Batched DeepPot operators equal the single-structure descriptors",
     "For every batch of neighbour lists the DeepPot torch operators return, per structure, exactly the DeepPot descriptor of that structure alone: the environment-matrix operator its values and their derivatives with respect to the displacements, the Se4pw operator the values, the derivatives with respect to the centre atom, the relative coordinates and the home indices of the neighbours. The result does not depend on the memory layout of the input tensors (strided, transposed, sliced) or on the other structures of the batch, holds in single and double precision, holds alike for the operator registered with torch (`torch.ops.deepmd.EnvMatrixOp`), and the inputs are left unchanged.",
     ["inputs", "configurations"], "all batch sizes, structures, species orders, padding widths, dtypes and memory layouts of every input tensor",
     "The tests print one MoS2 batch of contiguous tensors.",
     [D + "deepmd/src/envMatrixOp.cc", D + "deepmd/src/se4pw_op.cc", D + "deepmd/bind/envMatrixOp_bind.cc", DP + "envMatrix.h", DP + "se4pw.h"],
     [{"name": "batched kernels", "where": "EnvMatrixFunction::forward, Se4pwFunction::forward"}],
     "runtime monitor (independent slot-by-slot recomputation, layout and batch metamorphic relations) + ASan/UBSan",
     "Randomised exploration; the operators return derivatives as outputs and define no autograd gradient, which is not judged.")
prop("C11", "MTP radial and angular operators return exact values and gradients",
     "For every list of neighbour displacements (a tensor of shape neighbours by 3), of any layout and precision, the MTP torch operators return the switched Chebyshev radial functions of the distance and the outer powers of the displacement, neighbour by neighbour, and backpropagation gives their exact gradient with respect to the displacements; outside the radial range and for coincident atoms value and gradient are zero, never NaN.",
     ["inputs", "configurations"], "neighbour counts, basis sizes, tensor ranks, radii, dtypes and layouts of inputs and incoming gradients",
     "The tests print one case and never compare a gradient.",
     [MTP + "src/mtpMRadialOp.cc", MTP + "src/mtpMAngularOp.cc", MTP + "include/mtpMRadialOp.h", MTP + "include/mtpMAngularOp.h"],
     [{"name": "custom autograd functions", "where": "MtpQFunction, OuterNu0Function, MtpMAngularFunction forward/backward"}],
     "runtime monitor (closed form oracle of value and vector-Jacobian product) + ASan/UBSan",
     "Randomised exploration.")
prop("C12", "MTP moments and basis functions are exact, invariant and differentiable",
     "For every batch the MTP moment tensors equal the sum over listed neighbours of the radial function of the species pair times the outer power of the displacement, and the basis functions are the scalar contractions of these moments listed by the level enumeration. Padded slots contribute nothing, structures of a batch do not influence each other (species may be shared or given per structure), basis values are invariant under rotation, reflection and neighbour reordering, and autograd yields the exact gradients with respect to displacements and coefficients.",
     ["inputs", "configurations"], "species sets, radii, levels, moment ranks 0-4, padded tables, rotations, reflections, permutations, batches",
     "The tests check tensor shapes of one MoS2 case.",
     [MTP + "src/mtpMModule.cc", MTP + "src/mtpBModule.cc", MTP + "src/mtpMRadialOp.cc", MTP + "src/mtpMAngularOp.cc"],
     [{"name": "moments and contractions", "where": "MtpMModule::forward, MtpBModule::forward"}],
     "runtime monitor (independent closed form, metamorphic invariances, gradient oracle) + ASan/UBSan",
     "Randomised exploration up to level 9 (quick) or 12 (thorough).")
prop("C03", "The Python neighbour list returns exactly the neighbours of each atom",
     "Called from Python with a lattice, atomic numbers and fractional or Cartesian coordinates, nblist.find_info4mlff returns for every atom exactly its periodic neighbours nearer than the cutoff: counts, home indices and displacement vectors that agree slot by slot, -1 and zero in the unused slots, ordered by distance when asked, with the atom types in input order. Arrays of any memory layout, byte width of the integers or read-only flag give the same answer and are not modified; the returned arrays belong to the caller and their memory is released with them. Arguments that do not fit together (coordinates, lattice or flags of another size, no atoms, a table too narrow for the neighbours) raise an exception, and no memory outside the arrays is touched.",
     ["inputs", "configurations"], "all cells, periodicity masks, cutoffs, table widths from the exact maximum upwards, memory layouts and integer types of the three arrays",
     "No test calls the extension with anything but fresh contiguous arrays; a leak or an out-of-bounds read does not fail a test.",
     ["source/nblist/bind/nblist_bind.cc", "source/nblist/bind/nblist.i", NB + "neighborList.h"],
     [{"name": "numpy binding", "where": "find_info4mlff"}],
     "runtime monitor (brute-force oracle, allocator balance) in an interpreter with ASan/UBSan preloaded",
     "Randomised exploration; tables narrower than the largest neighbour count are outside the contract.")
IO, PW = "matersdk/io/publicLayer/", "matersdk/io/pwmat/"
prop("C16", "atom.config files are read and written without loss",
     "Reading an atom.config file or text in any of the forms PWmat writes (keyword case, number formats, MD, relaxation or plain header, extra blocks, atoms outside the home cell) gives exactly the atom count, lattice, atomic numbers, fractional coordinates, total energy, forces, virial, atomic energies and magnetic moments it states (an absent virial, atomic energy or moment is an error or zero, never made up), in file order (by atomic number when sorting is asked for). Writing a structure and reading it back returns the same atoms in the same order to the precision of the text (6 decimals, 7 digits for the lattice), with moments when asked, and never changes the structure. A file that was replaced on disk is read anew, never from a stale copy.",
     ["inputs", "histories"], "all structures and header, keyword, number and block variants, sequences of overwriting and rereading the same path",
     "The tests need files that are not in the repository and print the result.",
     [PW + "utils/acextractor.py", PW + "utils/lineLocator.py", IO + "structure.py"],
     [{"name": "keyword-located blocks", "where": "ACExtractor, ACstrExtractor, LineLocator"}, {"name": "writer", "where": "DStructure.to"}],
     "runtime monitor (files with known contents from an independent writer, independent parser of what is written)",
     "Randomised exploration; formats other than pwmat are delegated to pymatgen and only sampled.")
prop("C17", "Trajectory frames come back complete, in order and with matching labels",
     "For every MOVEMENT trajectory, whichever header form and optional blocks (stress, forces, velocities, atomic energies, magnetic moments) it has and however many lines its frames take, MVExtractor and Movement return each frame's own lattice, types, coordinates, energies, forces, virial, atomic energies and moments, one frame at a time in any order or all together, with arrays in the order of the reported labels; optional data is reported exactly when present, a frame still being written is ignored, and structures carry their atoms' forces, energies and moments.",
     ["inputs", "histories", "fault points"], "all frame counts and lengths, header forms, block subsets and orders, truncation of the last frame at any byte, access orders, replaced files",
     "The tests need trajectories that are not in the repository.",
     [PW + "utils/mvextractor.py", PW + "utils/acextractor.py", PW + "output/movement.py", IO + "traj.py", IO + "structure.py"],
     [{"name": "frame chunks", "where": "get_chunksizes, get_chunkslices, get_frame_str"}, {"name": "frame parsing", "where": "ACstrExtractor"}],
     "runtime monitor (generated trajectories with known contents)",
     "Randomised exploration.")
prop("C18", "Datasets conserve every frame of their source trajectories",
     "Collecting trajectories from a directory tree and writing them as a dataset neither loses, duplicates, reorders within a trajectory nor mixes frames: every frame of every matching file appears exactly once, with its own box, atom types, coordinates, energy, forces and, when all merged files have them, virial, atomic energies and moments. Frames are grouped by composition, one shared element list translates types back to the original elements, reported counts agree with the data, and the parts on disk hold the requested number of frames each (the last one the rest, none empty) with consistent lengths. A dataset that already exists is not overwritten.",
     ["inputs", "configurations"], "all directory layouts, compositions, atom orders, mixtures of optional blocks, frame counts and part sizes",
     "The test runs on a directory that does not exist.",
     ["matersdk/data/infoset.py", "matersdk/data/infosets.py", PW + "utils/mvextractor.py"],
     [{"name": "merging", "where": "InfoSets.from_dir"}, {"name": "partitioning", "where": "InfoSet.to_dir"}],
     "runtime monitor (conservation check tracing every frame from source text to arrays on disk)",
     "Randomised exploration.")
prop("C19", "Structure edits keep every atom, its position and its identity",
     "Odd supercells contain every image of every atom exactly once with the home cell at the centre, the original untouched, sorted by atomic number when asked and home atoms first otherwise; the key indices name exactly the home atoms in the sorted supercell; any image's position maps back to the 1-based index of its home atom and any other position to 0; reordering elements moves each atom together with its position and moment; removing vacancies removes nothing else; atom counts, centroid and vacuum detection follow their definitions.",
     ["inputs"], "all cells, species sequences, odd scaling factors, element orders, vacancy patterns, with and without moments",
     "The tests need absent files and print.",
     [IO + "structure.py"],
     [{"name": "structure operations", "where": "DStructure.make_supercell_, get_key_idxs, reformat_elements(_), remove_vacanies, get_site_index, get_natoms, get_centroid, judge_vacuum_exist"}],
     "runtime monitor (independent recomputation, atom-by-atom matching)",
     "Randomised exploration; vacuum detection is judged in cells with axes along x, y, z.")
prop("C29", "Structure collections and their saved sets hold exactly the chosen frames",
     "A StructCollection built from a trajectory, and any slice, item or index selection of it, holds exactly the chosen frames in the chosen order with matching energies and virials; an out-of-range index is refused. Saving in sets writes every frame once, in order, in sets of the requested size with a type map that names the elements; saving per image writes each frame's arrays and its neighbours within the finder's default cutoff (6.5 Angstrom) in its own folder. The printed summary states the true numbers of images and atoms, the composition, and whether virials and atomic energies are present. None of this depends on the number of processors. Saving over an older folder leaves nothing of it. The neighbour maxima equal the maxima over all frames.",
     ["inputs", "histories"], "all frame counts, selections (repeated, negative, empty of virials), set sizes, existing output folders",
     "The test needs an absent trajectory.",
     ["matersdk/data/struct_collection.py", IO + "neigh.py"],
     [{"name": "selection and saving", "where": "StructCollection.from_indices, __getitem__, to, save_all_info, get_max_num_nbrs_real"}],
     "runtime monitor (every array on disk traced back to its frame)",
     "Randomised exploration.")
prop("C20", "The Python neighbour finder and its index tables are exact",
     "For every structure, cutoff and odd supercell, StructureNeighborsV1 gives one row per home atom (ordered by atomic number when reformatting): the atom itself first, then exactly the images within the cutoff (one exactly on it may or may not count) among the copies of the supercell, by increasing distance, each once, with their species, positions and distances, zeros in unused slots and no more columns than needed; when the supercell reaches beyond the cutoff these are all periodic neighbours. The neighbour maxima (overall and per element) are the true maxima, and the index tables name for every centre of one species the 1-based home atoms of its neighbours of another, in order of distance, 0 where there is none. The structure passed in is not changed.",
     ["inputs", "configurations"], "all cells, species sequences, atoms outside the home cell, supercells, cutoffs, table sizes",
     "The tests print the tables of one absent structure.",
     [IO + "neigh.py", IO + "structure.py"],
     [{"name": "neighbour rows", "where": "StructureNeighborsV1._get_key_neighs_info"}, {"name": "index tables and maxima", "where": "StructureNeighborsUtils.get_nbrs_indices, get_max_num_nbrs_real, get_max_num_nbrs_real_element"}],
     "runtime monitor (brute-force oracle over explicit images)",
     "Randomised exploration; distances within 1e-7 of the cutoff may go either way.")
prop("C21", "The Python DeepPot-SE features are exact, smooth and correctly padded",
     "For every structure, species pair and pair of radii, the Python feature classes select exactly the neighbours of the wanted species, and give s(r), s(r)x/r, s(r)y/r, s(r)z/r with the quintic switching function: 1/r within the inner radius, falling smoothly to exactly zero at the cutoff and staying zero beyond it, together with the exact derivative of each component by the position of the centre. Unused slots are zero, padding to a requested size keeps the values and refuses a size that is too small, and the flattened features list centres and neighbour species in the requested order. Asking again gives the same, and the structure and its neighbour table are left as they were.",
     ["inputs"], "all cells, species, radii (neighbours exactly on either radius included), padding sizes, orders of species",
     "The tests print shapes for an absent structure.",
     ["matersdk/feature/deepmd/premise.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py"],
     [{"name": "pair selection", "where": "DpFeaturePairPremiseV1.extract_feature_pair"}, {"name": "features and derivatives", "where": "DpseTildeRPairV1.get_tildeR, calc_derivative, DpseTildeRV1.get_tildeR"}],
     "runtime monitor (closed form oracle, complex-step derivative oracle)",
     "Randomised exploration.")
prop("C22", "The adjacency matrix counts every periodic edge once",
     "For every structure and cutoff, entry (i, j) of the adjacency matrix is the number of images of atom j within the cutoff (included) of atom i among the copies of the odd supercell, the atom itself not counted; the matrix is symmetric, complete once the supercell reaches beyond the cutoff, in the atom order of the structure, and scaling factors without a centre cell are refused. Asking again gives the same, and the structure is left as it was.",
     ["inputs", "configurations"], "all cells, species sequences, atoms outside the home cell, cutoffs, odd and even supercells",
     "The test prints the matrix of an absent structure.",
     ["matersdk/feature/graph/edge.py"],
     [{"name": "edge counting", "where": "AdjacentMatrix.get_adjacent_matrix"}],
     "runtime monitor (brute-force oracle over explicit images)",
     "Randomised exploration; distances within 1e-7 of the cutoff may go either way except on lattices where they are exact.")
prop("C23", "Brillouin zone sampling covers the zone and the path as asked",
     "K-meshes hold one point along a direction with vacuum, and otherwise the number of points along each reciprocal vector that the density asks for, at least one; the irreducible points with their multiplicities account for every point of the mesh exactly once; HIGHK and gen.kpt list every high-symmetry point and every segment of the path in order (no segment across a jump), with an integer point count that follows the length of the segment in reciprocal space; two-dimensional paths stay in the plane. An IN.KPT file is read back as written: flags, points, weights, Cartesian coordinates in both units, named points and the cumulative distance, which does not advance over a jump. Files replaced on disk are read anew.",
     ["inputs", "histories"], "all crystal systems and random cells, densities, path lists, sequences of overwriting and rereading the same path",
     "The tests need absent files and print.",
     ["matersdk/calculation/kpoints/kmesh.py", "matersdk/calculation/kpoints/kpointsSampler.py", "matersdk/calculation/kpath/kpathSampler.py", PW + "input/inkpt.py"],
     [{"name": "meshes and paths", "where": "KMesh.get_kmesh, KPointsSampler.get_kpoints, KpathSampler.output_HIGHK_file, output_gen_kpt"}, {"name": "reader", "where": "Inkpt"}],
     "runtime monitor (independent reciprocal-lattice oracle, conservation of mesh points, independent parser of the written files)",
     "Randomised exploration; symmetry finding itself is pymatgen's and is only sampled.")
prop("C24", "Band energies, band edges and gaps are those of the files",
     "For every REPORT and OUT.FERMI, with one or two spins, Report returns the stated numbers of bands and k-points, the structure file name and every eigenvalue of both spin channels, the Fermi energy to the stated precision; it calls a system a metal exactly when a band crosses the Fermi level; otherwise the conduction and valence band edges it names (energy, 1-based k-point, band and spin) are states of the file at the true extremum, degenerate partners included once each, and the gap and its directness follow from them; a metal has gap zero and no edges. Files replaced on disk are read anew.",
     ["inputs", "histories"], "all numbers of bands, k-points and spins, metals and semiconductors, degenerate and shared edges, sequences of overwriting and rereading",
     "The tests need absent files and print.",
     [PW + "output/report.py", PW + "output/outfermi.py"],
     [{"name": "eigenvalue tables", "where": "Report.get_eigen_energies"}, {"name": "band edges", "where": "Report.get_cbm, get_vbm, get_bandgap, get_bandgap_type, _is_metal"}],
     "runtime monitor (files with known contents from an independent writer, extrema recomputed)",
     "Randomised exploration; the Fermi level is kept at least 0.003 eV away from every edge because OutFermi rounds it.")
prop("C30", "Projected densities and bands are attributed to the right element and orbital",
     "For every DOS.totalspin or fat-band file, whichever elements and orbitals it projects on (symbols that begin with another's symbol included), the total, per-element and per-orbital tables contain exactly the columns and sums of the file, one table per band with every k-point in order. Any number of readers of the same file can be alive, used and released in any order; the file itself and files of the user beside it are never changed, overwritten or removed, and nothing is left behind.",
     ["inputs", "histories"], "all element and orbital sets, repeated columns, header forms, interleavings of creating, using and releasing readers",
     "The tests need absent files and print.",
     [PW + "output/dostotalspin.py", PW + "output/fatabandstructureTxt.py"],
     [{"name": "projections", "where": "Dostotalspin.get_tdos, get_pdos_elements, get_pdos_orbitals, FatbandStructure.get_total_dfs_lst, get_element_dfs_lst, get_orbital_dfs_lst"}, {"name": "working copy", "where": "Dostotalspin.__init__, __del__"}],
     "runtime monitor (files with known contents, directory and content snapshots around every history)",
     "Randomised exploration.")
prop("C31", "Symbols and atomic numbers name the same element everywhere",
     "For each of the 118 elements, in any company and order, the symbol and the atomic number stand for the same element in every place that turns one into the other: the two tables are inverse to each other and follow the periodic table (atomic number zero is the vacancy), structures written to and read from atom.config and MOVEMENT keep their elements, sorting by element and supercells follow the atomic number, element filters of neighbour counts and bond statistics pick the atoms of the named element, and data sets and collections label every atom with its element.",
     ["inputs"], "all 118 elements, random companions and orders, structures, trajectories, data sets",
     "The tests look at one MoS2 structure.",
     [PW + "utils/parameters.py", "matersdk/io/publicLayer/structure.py", "matersdk/io/publicLayer/neigh.py", "matersdk/data/infoset.py", "matersdk/data/infosets.py", "matersdk/data/struct_collection.py", "matersdk/feature/avg/avgbond.py"],
     [{"name": "element tables", "where": "atomic_number2specie, specie2atomic_number and their users"}],
     "runtime monitor (independent table of the elements, every element through every path in each run)",
     "All elements are covered in every run; their companions and orders are sampled.")
prop("C25", "Trajectory statistics cover every frame, bond and angle exactly once",
     "For every trajectory the mean squared displacements (with and without the motion of the centroid) and diffraction intensities cover every pair of consecutive frames in order; average bond lengths run over every periodic bond of the two species within the cutoff, frame by frame; pair distances follow the two named atoms; average bond angles and the angle-selected bond lengths count every pair of distinct neighbours of the wanted species once, including straight angles, and nothing else. Results do not depend on the number of processors.",
     ["inputs", "configurations"], "all cells, species, cutoffs, frame counts, species triples, collinear neighbours, numbers of processors",
     "The tests need absent trajectories and print.",
     ["matersdk/feature/avg/msd.py", "matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py"],
     [{"name": "statistics", "where": "Msd, DiffractionIntensity, AvgBond, PairBond, AvgAngle"}],
     "runtime monitor (independent recomputation over explicit images, multiset comparison)",
     "Randomised exploration.")
prop("C26", "Perturbed structures stay within the requested strain and displacement",
     "Every perturbed copy has the atoms of the original in the same order; its cell is the original one under a symmetric deformation whose entries stay within the requested fraction (half of it off the diagonal) followed by a proper rotation to lower-triangular form, and its atoms follow the cell and are displaced independently with the requested root-mean-square distance. Amplitude zero changes nothing but the orientation, negative amplitudes are refused, the original is untouched, copies differ, seeding NumPy's global generator gives the same copies again, left-handed cells keep their handedness, and the batch form writes each copy of each folder to a file of its own beside the unchanged input.",
     ["inputs", "configurations"], "all cells, species, atoms outside the home cell, amplitudes, numbers of copies and folders",
     "The test needs an absent folder and asserts nothing.",
     ["matersdk/adalearn/generator/perturbation.py"],
     [{"name": "perturbation", "where": "PerturbStructure.perturb, rot_lower_triangular, BatchPerturbStructure.batch_perturb"}],
     "runtime monitor (deformation, rotation and displacements recovered from each result; distribution tests over the run)",
     "Randomised exploration; distribution tests at 8 standard errors.")
prop("C27", "Generated input files and job scripts say exactly what was asked",
     "For all settings, gen.vext, DOS.input and Slurm scripts contain every requested setting, once, with its value, in the form their readers expect, replace whatever was in the file before, and contain nothing that was not set; a job script carries each directive on a line of its own before its commands and runs under bash.",
     ["inputs"], "all settings, numbers of all magnitudes, unset options, existing files",
     "The test prints one file.",
     [PW + "input/gen_vext.py", PW + "input/dos_input.py", "matersdk/hpc/slurm/job.py"],
     [{"name": "writers", "where": "GenVext.to, DosInput.to, Job.to"}],
     "runtime monitor (independent parser of the written files, scripts executed)",
     "Randomised exploration; the smearing is compared to the 5 decimals of the format.")
prop("C28", "Force-field extraction preserves every parameter",
     "For every checkpoint with any numbers of embedding and fitting networks and layers, with residual blocks in all, some or no layers, the HDF5 file holds exactly the weights, biases and residual blocks of the requested networks, bit for bit under their names, with the layer sizes and descriptor dimensions of the networks, replaces an older file, and reading it back returns all of it.",
     ["inputs", "configurations"], "all network counts, depths, widths, residual layouts, precisions, existing files",
     "The test needs an absent checkpoint.",
     ["matersdk/infer/pwmatmlff/deepmd/extractor.py"],
     [{"name": "extraction", "where": "FFExtractor.save_hdf5_file, get_hdf5_dict"}],
     "runtime monitor (checkpoints with known contents, exact comparison of every array)",
     "Randomised exploration.")
prop("C32", "DeepPot-SE features are normalised by the statistics of the chosen frames",
     "For every collection, selection of its frames, radii, species lists and slot numbers, the normaliser's mean and deviation of each centre species are those of the features of exactly the chosen frames (as often as chosen) over all slots of all neighbour species, empty ones included: the radial component has its mean and standard deviation, the three angular components mean zero and one common deviation, and no deviation is below 0.01 or NaN. Normalising a structure gives (feature - mean) / deviation of its centre species slot by slot, and the derivative divided by the same deviation, with centre species along the rows and neighbour species along the slots in the order asked for; one frame or several at once are treated alike, inputs are not changed, and a normaliser written to a file (also over an older one) and read back is the same.",
     ["inputs", "configurations"], "all collections, frame selections, radii, species orders, slot numbers, features without spread",
     "The test imports a module that does not exist and needs an absent trajectory.",
     ["matersdk/feature/deepmd/preprocess.py"],
     [{"name": "normalisation", "where": "TildeRNormalizer, TildeRPairNormalizer, NormalizerPremise"}],
     "runtime monitor (independent features by explicit images and complex step, independent statistics, normalisation undone and compared slot by slot)",
     "Randomised exploration; no neighbour within 1e-6 of the cutoff, equidistant neighbours in any order.")
prop("C33", "Inference hands the model the neighbours, features and counts of the structure",
     "For every structure and species list, the inputs prepared for a model (relative coordinates, normalised features and their derivatives, 1-based home atoms of the neighbours, atom counts) describe the same neighbour in the same slot, in the requested order of centre and neighbour species, empty slots marked by zero coordinates, derivatives and index, and counts in the order of the centre species, 0 for an absent one; too few slots are refused. Inference calls the model stored in the file at that moment exactly once, in evaluation mode and double precision, with these inputs, and returns its total energy, atomic energies, forces and virial (3 by 3) unchanged. The features per pair of species are keyed by both atomic numbers and padded to the size of the neighbour species. The structure is not changed.",
     ["inputs", "configurations"], "all structures, species orders, species the structure lacks, slot numbers, radii, models",
     "The tests import a module that does not exist and need absent models.",
     ["matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/inference.py", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py"],
     [{"name": "inference", "where": "InferPreprocessor, DpInfer.infer, FFInfer.calc_tildeR"}],
     "runtime monitor (a saved model that records what it is given; independent features and neighbour indices, slot by slot)",
     "Randomised exploration on the CPU, structures sorted by the finder (the documented setting); no neighbour within 1e-6 of the cutoff.")
