"""Which entry points each property is decided on.  'Entry' alone means every observable part; 'Entry:parts' restricts it to
r(esult), a(borts/rejections), f(ields) and e(ffects: writes and calls)."""

STATE = "SimulationState"
RES = "SimulationResult"
PS = "PeriodicStructure"
LAT = "Lattice"
GRID = "DiscreteGridSetup"
CONV = "PymatgenStructureConverter"
RUNS = ["SynchronousRunner.run", "AsynchronousRunner.run"]


def m(cls, *names):
    return [f"{cls}.{n}" for n in names]


T = {
    "P01": m(STATE, "__init__", "copy", "from_dict", "from_struct"),
    "P02": RUNS + m("BasicController", "instantiate_result") + m(STATE, "copy") + m(RES, "__init__"),
    "P03": m(STATE, "set_site_state", "set_general_state", "get_site_state", "get_general_state"),
    "P04": m(STATE, "batch_update", "set_site_state", "set_general_state"),
    "P05": ["merge_updates", "SynchronousRunner.run", "AsynchronousRunner.run"],
    "P06": ["SynchronousRunner.run", "SynchronousRunner.__init__"] + m(STATE, "site_ids", "size", "batch_update") + ["merge_updates"],
    "P07": ["SynchronousRunner.run", "SynchronousRunner.__init__"] + m(STATE, "site_ids", "size") + ["merge_updates"],
    "P08": ["AsynchronousRunner.run", "BasicController.get_random_site", "merge_updates"],
    "P09": RUNS + m(RES, "add_step", "set_output", "__init__", "__len__"),
    "P10": m(RES, "get_step", "steps", "load_steps", "last_step", "first_step", "__len__", "add_step", "__init__"),
    "P11": m(RES, "get_step", "steps", "load_steps", "last_step", "first_step") + m(STATE, "copy", "__init__"),
    "P12": m(LAT, "as_dict", "from_dict") + m(PS, "as_dict", "from_dict") + m(STATE, "as_dict", "from_dict") + m("Simulation", "as_dict", "from_dict", "to_file", "from_file", "__init__")
    + m(RES, "as_dict", "from_dict", "to_file", "from_file"),
    "P13": m("Simulation", "to_file", "from_file") + m(RES, "to_file", "from_file") + ["SquareGridArtist2D.save_img", "SquareGridArtist3D.save_img", "ResultArtist.to_gif"],
    "P14": m(PS, "__init__", "add_site", "get_site", "sites", "site_at", "id_at", "class_at", "site_class", "site_location", "all_site_classes", "from_dict")
    + m(STATE, "site_ids", "set_site_state", "get_site_state", "batch_update") + ["Simulation.state_at", "MotifNeighborhoodBuilder.get", "SiteClassNeighborhood.neighbors_of", "merge_updates"],
    "P15": m(PS, "__init__", "add_site", "site_at", "id_at", "class_at", "site_location") + m(LAT, "get_periodized_cartesian_coords") + ["Simulation.state_at", "periodize"],
    "P16": m(LAT, "__init__", "get_cartesian_coords", "get_fractional_coords", "get_periodized_cartesian_coords", "cartesian_periodic_distance", "matrix", "inv_matrix")
    + m(PS, "build_from", "add_site", "site_at") + ["pbc_diff_cart", "StructureBuilder.build"] + m(CONV, "to_pylattica_structure_builder", "to_pylattica_structure_and_state", "to_pymatgen_structure"),
    "P17": ["periodize", "pbc_diff_frac_vec", "pbc_diff_cart"] + m(LAT, "__init__", "get_periodized_cartesian_coords", "get_scaled_lattice", "as_dict", "from_dict", "cartesian_periodic_distance")
    + m(PS, "build_from", "as_dict", "from_dict", "add_site", "site_at") + ["SquareGridLattice2D.__init__", "SquareGridLattice3D.__init__", "RhombohedralLattice.__init__"],
    "P18": m(PS, "build_from", "add_site") + ["StructureBuilder.__init__", "StructureBuilder.build", "get_points_in_box", "get_points_in_cube"] + m(LAT, "get_scaled_lattice", "__init__")
    + ["SquareGridLattice2D.__init__", "SquareGridLattice3D.__init__", "RhombohedralLattice.__init__", "SimpleSquare2DStructureBuilder.__init__", "SimpleSquare3DStructureBuilder.__init__",
       "HoneycombTilingBuilder.__init__"] + m(GRID, "build_structure"),
    "P19": ["NeighborhoodBuilder.get", "DistanceNeighborhoodBuilder.get", "AnnularNeighborhoodBuilder.get", "MotifNeighborhoodBuilder.get", "Neighborhood.__init__", "Neighborhood.neighbors_of",
            "DistanceNeighborhoodBuilder.get_neighbors", "AnnularNeighborhoodBuilder.get_neighbors", "MotifNeighborhoodBuilder.get_neighbors"] + m(PS, "sites"),
    "P20": ["DistanceNeighborhoodBuilder.__init__", "DistanceNeighborhoodBuilder.get_neighbors", "AnnularNeighborhoodBuilder.__init__", "AnnularNeighborhoodBuilder.get_neighbors",
            "DistanceNeighborhoodBuilder.get", "AnnularNeighborhoodBuilder.get", "HoneycombNeighborhoodBuilder.__init__", "CircularNeighborhoodBuilder.get", "pbc_diff_cart",
            "pbc_diff_frac_vec", "Lattice.cartesian_periodic_distance"],
    "P21": ["MotifNeighborhoodBuilder.__init__", "MotifNeighborhoodBuilder.get_neighbors", "MotifNeighborhoodBuilder.get", "EuclideanDistanceMap.__init__", "ManhattanDistanceMap.__init__",
            "EuclideanDistanceMap.get_dist", "ManhattanDistanceMap.get_dist", "distance", "get_points_in_cube", "get_points_in_box",
            "VonNeumannNbHood2DBuilder.__init__", "VonNeumannNbHood3DBuilder.__init__", "MooreNbHoodBuilder.__init__", "PseudoHexagonalNeighborhoodBuilder2D.__init__",
            "PseudoHexagonalNeighborhoodBuilder3D.__init__", "PseudoPentagonalNeighborhoodBuilder.__init__"],
    "P22": ["StochasticNeighborhood.__init__", "StochasticNeighborhood.neighbors_of", "SiteClassNeighborhood.__init__", "SiteClassNeighborhood.neighbors_of",
            "StochasticNeighborhoodBuilder.__init__", "StochasticNeighborhoodBuilder.get", "SiteClassNeighborhoodBuilder.__init__", "SiteClassNeighborhoodBuilder.get", "NeighborhoodBuilder.get"],
    "P23": ["process_variant_string", "GameOfLifeController.__init__", "GameOfLifeController.pre_run", "GameOfLifeController.get_state_update", "MooreNbHoodBuilder.__init__"],
    "P24": ["GrowthController.__init__", "GrowthController.get_state_update", "GrowthSetup.__init__", "GrowthSetup.grow"],
    "P25": m(GRID, "__init__", "build_structure", "setup_solid_phase", "setup_interface", "setup_particle", "setup_random_particles", "add_particle_to_state", "setup_coords", "setup_noise")
    + ["distance", "PhaseSet.__init__", "Simulation.__init__"],
    "P26": m(GRID, "setup_random_sites") + ["GrowthSetup.grow", "MooreNbHoodBuilder.__init__"],
    "P27": m("StateAnalyzer", "__init__", "get_sites", "get_sites_where_equal", "get_site_count", "get_site_count_where_equal") + m(PS, "sites") + m(STATE, "all_site_states", "get_site_state"),
    "P28": m("DiscreteStepAnalyzer", "cell_fraction", "cell_count", "cell_ratio", "phase_count", "phases_present")
    + m("DiscreteResultAnalyzer", "__init__", "all_phases", "plot_phase_fractions", "final_phase_fractions", "phase_fraction_at", "plot_phase_counts") + m(STATE, "size")
    + m("StateAnalyzer", "get_sites_where_equal", "get_site_count_where_equal") + m(RES, "last_step", "__len__"),
    "P30": m("ResultArtist", "__init__", "to_gif", "jupyter_play", "jupyter_show_step") + m(RES, "__len__"),
    "P31": m("CellArtist", "get_legend") + m("DiscreteCellArtist", "from_phase_list", "from_discrete_state", "from_discrete_result", "build_color_map_from_phase_list", "__init__", "get_legend",
                                            "get_color_from_cell_state", "get_cell_legend_label")
    + ["color_map", "StructureArtist.__init__", "SquareGridArtist2D.get_img", "SquareGridArtist3D.get_img", "SquareGridArtist2D.save_img", "SquareGridArtist3D.save_img",
       "StructureArtist.jupyter_show"],
    "P32": m(CONV, "to_pylattica_lattice", "to_pylattica_structure_builder", "to_pylattica_structure_and_state", "to_pymatgen_lattice", "to_pymatgen_structure"),
    "P34": ["Runner.run:re"] + RUNS + m("BasicController", "pre_run", "get_random_site", "instantiate_result"),
}
T["P34"] = RUNS + m("BasicController", "pre_run", "get_random_site", "instantiate_result")

# operations that must not change anything but what is listed as theirs: query, render, convert, compare, serialise
READONLY = (
    m(STATE, "as_dict", "size", "site_ids", "all_site_states", "get_site_state", "get_general_state", "copy", "__eq__", "from_dict", "from_struct")
    + m(PS, "as_dict", "from_dict", "site_at", "id_at", "class_at", "site_class", "site_location", "get_site", "all_site_classes", "sites", "build_from")
    + m(LAT, "as_dict", "from_dict", "matrix", "inv_matrix", "get_cartesian_coords", "get_fractional_coords", "get_periodized_cartesian_coords", "get_scaled_lattice", "cartesian_periodic_distance")
    + ["periodize", "pbc_diff_frac_vec", "pbc_diff_cart", "distance", "get_points_in_box", "get_points_in_cube", "color_map", "process_variant_string"]
    + m(RES, "steps", "get_step", "last_step", "first_step", "as_dict", "from_dict", "to_file", "__len__", "load_steps")
    + m("Simulation", "as_dict", "from_dict", "to_file", "from_file", "state_at")
    + m("StateAnalyzer", "get_sites", "get_sites_where_equal", "get_site_count", "get_site_count_where_equal")
    + m("DiscreteStepAnalyzer", "cell_fraction", "cell_count", "cell_ratio", "phase_count", "phases_present")
    + m("DiscreteResultAnalyzer", "all_phases", "plot_phase_fractions", "final_phase_fractions", "phase_fraction_at", "plot_phase_counts")
    + ["StructureBuilder.build", "DistanceNeighborhoodBuilder.get", "AnnularNeighborhoodBuilder.get", "MotifNeighborhoodBuilder.get", "StochasticNeighborhoodBuilder.get", "SiteClassNeighborhoodBuilder.get",
       "DistanceNeighborhoodBuilder.get_neighbors", "AnnularNeighborhoodBuilder.get_neighbors", "MotifNeighborhoodBuilder.get_neighbors",
       "Neighborhood.neighbors_of", "StochasticNeighborhood.neighbors_of", "SiteClassNeighborhood.neighbors_of", "EuclideanDistanceMap.get_dist",
       "GameOfLifeController.get_state_update", "GrowthController.get_state_update", "BasicController.get_random_site", "BasicController.instantiate_result"]
    + m("DiscreteCellArtist", "from_phase_list", "from_discrete_state", "from_discrete_result", "build_color_map_from_phase_list", "get_legend", "get_color_from_cell_state", "get_cell_legend_label")
    + ["SquareGridArtist2D.get_img", "SquareGridArtist3D.get_img", "SquareGridArtist2D.save_img", "SquareGridArtist3D.save_img", "ResultArtist.to_gif"]
    + m(CONV, "to_pylattica_lattice", "to_pylattica_structure_builder", "to_pylattica_structure_and_state", "to_pymatgen_lattice", "to_pymatgen_structure")
    + m(GRID, "build_structure", "setup_solid_phase", "setup_interface", "setup_particle", "setup_random_particles", "setup_coords", "setup_noise", "setup_random_sites")
)
T["P29"] = [e + ":e" for e in READONLY]
T["P33"] = [e + ":e" for e in ["BasicController.get_random_site", "StochasticNeighborhood.neighbors_of"] + m(GRID, "setup_random_particles", "setup_noise", "setup_random_sites") + RUNS]

PARTS = {"r": "result", "a": "rejections", "f": "fields", "e": "effects"}


def parse(spec):
    e, _, p = spec.partition(":")
    return e, tuple(PARTS[x] for x in p) if p else tuple(PARTS.values())


ENTRIES = sorted({parse(s)[0] for v in T.values() for s in v})
