"""Declarative list of the checks per property."""
import re

from va.build import config
from va.run import Group, Pair

RULE = ("for every reachable exit the final content of every memory location the function can write, its return value and its ordered list of "
        "out-of-line calls equal those of the reference function, as value-numbered expressions over the entry state (all loop bounds symbolic)")
EXPL = ("LLVM IR of the current tree is inlined and summarised by a gated-SSA value-flow analysis with closed-form loops; the summary is compared with "
        "that of an independently written reference function by value numbering (random interpretation); nothing is executed and no solver is used. ")

WALLS = [["pre_walls_%d" % i, "spec_yee_bounds"] for i in range(16)]
WALLS_H = [w + ["inv_outer_conductor"] for w in WALLS]
OVERLAY = [r"Grid<.*>::overlay_.*"]
YEE = "MaxwellSolverYee::"

PROPS = {}

PROPS["P01"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("yee-pml", [Pair(YEE + r"calc_field_h\(\)", "spec_calc_field_h", WALLS_H), Pair(YEE + r"calc_field_e\(\)", "spec_calc_field_e", WALLS)],
          ["fields.cpp"], opaque=OVERLAY),
    Group("yee-nopml", [Pair(YEE + r"calc_field_h\(\)", "spec_calc_field_h", WALLS_H), Pair(YEE + r"calc_field_e\(\)", "spec_calc_field_e", WALLS)],
          ["fields.cpp"], cfg=config(drop=["ENABLE_PML"]), opaque=OVERLAY),
])

PROPS["P02"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("pml", [Pair(YEE + r"set_pml\(\)", "spec_set_pml", [["pre_posgeo"]])], ["fields.cpp"], opaque=OVERLAY),
])
PROPS["P03"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("gather", [Pair(r"MaxwellSolver::get_field_e\(double, double\)", "spec_get_field_e"), Pair(r"MaxwellSolver::get_field_h\(double, double\)", "spec_get_field_h")],
          ["fields.cpp"], opaque=OVERLAY),
])

BORIS = r"PusherBoris::operator\(\)\(\)"
NOADAPT = ["SWITCH_PUSHER_BORIS_ADAPTIVE"]
PROPS["P04"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("adaptive", [Pair(BORIS, "spec_boris_adaptive", calls_unordered=True), Pair(r"PusherVay::operator\(\)\(\)", "spec_vay", calls_unordered=True),
                       Pair(r"PusherHC::operator\(\)\(\)", "spec_hc", calls_unordered=True)], ["pushers.cpp"]),
    Group("relativistic", [Pair(BORIS, "spec_boris_rel", calls_unordered=True)], ["pushers.cpp"], cfg=config(drop=NOADAPT, SWITCH_PUSHER_BORIS_RELATIVISTIC="true")),
    Group("classic", [Pair(BORIS, "spec_boris_classic", calls_unordered=True)], ["pushers.cpp"], cfg=config(drop=NOADAPT, SWITCH_PUSHER_BORIS="true")),
    Group("external", [Pair(BORIS, "spec_boris_adaptive", calls_unordered=True), Pair(r"PusherVay::operator\(\)\(\)", "spec_vay", calls_unordered=True),
                       Pair(r"PusherHC::operator\(\)\(\)", "spec_hc", calls_unordered=True)], ["pushers.cpp"], cfg=config(ENABLE_EXTERNAL_FIELDS="true")),
])

SP = r"^SpecieP::"
PROPS["P05"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("motion", [Pair(SP + r"mover_cylindrical\(\)", "spec_move"), Pair(SP + r"back_position_to_rz\(\)", "spec_fold_position"),
                     Pair(SP + r"back_velocity_to_rz\(\)", "spec_fold_velocity"), Pair(SP + r"dump_position_to_old\(\)", "spec_dump_old"),
                     Pair(SP + r"bind_cell_numbers\(\)", "spec_bind_cells"), Pair(SP + r"reflect\(\)", "spec_reflect"),
                     Pair(r"^BeamP::reflect\(\)", "spec_beam_reflect")], ["particles.cpp"]),
])
PROPS["P07"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("moments", [Pair(SP + r"calc_%s\(\)" % x, "spec_calc_" + x, [["pre_maps"]], calls_unordered=True)
                      for x in ("density", "momentum_w", "momentum_abs_w", "momentum", "energy", "temperature")], ["particles.cpp"]),
])

_VOPS = ["%s%s" % (p, o) for p in ("v", "s", "av", "as") for o in ("add", "sub", "mul", "div")]
_MISC = ["consts", "setv", "sets", "dot", "len2", "len", "cross", "eqv", "nev", "eqs", "get", "copy"] + ["e" + x for x in ("set", "inc", "dec", "m_a", "d_a")]
_GRID = ["g" + x for x in ("set", "add", "sub", "mul", "div")] + ["halo"]
PROPS["P23"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("base", [Pair("^code_%s$" % x, "spec_" + x) for x in _VOPS] + [Pair("^code_%s$" % x, "spec_" + x) for x in _MISC] + [Pair("^code_%s$" % x, "spec_" + x, [["inv_grid"]]) for x in _GRID] + [
        Pair(r"phys::rel::lorenz_factor\(.*", "spec_lorenz", aborts=True), Pair(r"phys::rel::lorenz_factor_inv\(.*", "spec_lorenz_inv", aborts=True),
        Pair(r"phys::rel::momentum_0\(.*", "spec_momentum_0", aborts=True), Pair("code_momentum", "spec_momentum", aborts=True),
        Pair(r"phys::rel::energy\(.*", "spec_energy", aborts=True), Pair(r"phys::rel::energy_m\(.*", "spec_energy_m", aborts=True),
        Pair(r"phys::plasma::debye_length\(.*", "spec_debye", aborts=True), Pair(r"phys::plasma::plasma_frequency\(.*", "spec_plasma_frequency", aborts=True),
        Pair(r"phys::plasma::coulomb_logarithm\(.*", "spec_coulomb_log", aborts=True), Pair(r"phys::plasma::collision_freqency\(.*", "spec_coll_freq", aborts=True)], ["base.cpp"]),
])

PROPS["P08"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("halo", [Pair("code_overlay_%s" % x, "spec_overlay_" + x, [["pre_two"]]) for x in ("x", "y", "xy")] +
          [Pair("code_overlay3_%s" % x, "spec_overlay3_" + x, [["pre_two3"]]) for x in ("x", "y", "xy")] +
          [Pair("code_set3", "spec_set3"), Pair("code_halo3", "spec_halo3"), *[Pair("code_%s3_%d" % (x, c), "spec_at3_%d" % c) for x in ("at", "comp") for c in range(3)]], ["halo.cpp"]),
])
from va import checks      # noqa: E402
PROPS["P08"]["custom"] = [checks.exchange]
PROPS["P13"] = dict(
    explanation="LLVM IR of the current tree is summarised; the calls made by each step function are listed with closed-form iteration spaces, instantiated for grids of sub-domains and species and named by reference operations; nothing is executed. ",
    rule="each operation of a step is applied exactly once to every sub-domain and species, unconditionally, in an order that respects the data dependences between operations",
    custom=[checks.step_order(), checks.main_loop(),
            checks.step_order(config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true", ENABLE_EXTERNAL_FIELDS="true"), True, True, "with collisions and external fields"),
            checks.main_loop(config(ENABLE_MPI="true"), "with MPI")])
from va import matrix      # noqa: E402
PROPS["P22"] = dict(explanation="Every combination of build options is type-checked by the compiler front end and linked as IR; the constructors reachable from the sub-domain's constructor tell which implementation an option selects. ",
                    rule="each supported configuration compiles, leaves no project symbol undefined, and builds exactly the implementation its options name; every tested switch can be set",
                    custom=[matrix.check])
VB = "CurrentVB::"
PROPS["P06"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("vb", [Pair(VB + r"azimuthal_current_distribution\(\)", "spec_current_phi"), Pair(VB + r"simple_current_distribution\(.*", "spec_simple"),
                 Pair(VB + r"strict_motion_distribution\(.*", "spec_strict")], ["current.cpp"]),
    Group("vb-path", [Pair(VB + r"rz_current_distribution\(\)", "spec_current_rz", calls_unordered=True)], ["current.cpp"],
          opaque=[VB + r"(simple_current|strict_motion)_distribution\(.*"]),
    Group("vb-whole", [Pair(VB + r"current_distribution\(\)", "spec_current_vb", calls_unordered=True), Pair(r"Domain::reset_current\(\)", "spec_reset_current")], ["current.cpp"],
          opaque=[VB + r"(rz|azimuthal)_current_distribution\(.*"]),
    Group("zigzag", [Pair(r"CurrentZigZag::current_distribution\(\)", "spec_current_zigzag")], ["current.cpp"]),
])

PROPS["P11"] = dict(explanation=EXPL, rule=RULE, groups=[], custom=[checks.migration()])

from va import races      # noqa: E402
_COLL = dict(ENABLE_COULOMB_COLLISIONS="true", ENABLE_EXTERNAL_FIELDS="true")
PROPS["P12"] = dict(
    explanation="Outlined parallel regions are summarised (closed-form iteration spaces) and instantiated for several tilings; the functions they call are covered by an interprocedural write-effect analysis over the whole-program IR; nothing is executed. ",
    rule="concurrent iterations of a parallel loop use disjoint sub-domains; everything else they change is a local, thread-local, atomic, or changed inside one critical section; no function they call writes a global or an object shared by all sub-domains",
    groups=[], custom=[races.regions(), races.reach(), races.regions(config(SWITCH_COULOMB_COLLISIONS_TA77S="true", **_COLL), "with collisions and external fields, ")] +
    [races.reach(config(**{"SWITCH_COULOMB_COLLISIONS_" + x: "true"}, **_COLL), "collisions " + x) for x in ("TA77S", "SK98", "P12")])
from va import tiling      # noqa: E402
NOPML = ["ENABLE_PML"]
PROPS["P10"] = dict(explanation="The constructor that cuts the area into sub-domains is summarised (LLVM IR value flow, containers modelled); for several tilings, with symbolic numbers of cells, contents and arguments of every object it creates are compared with reference formulas. ",
                    rule="every sub-domain gets its own cells (adjacent, covering the area exactly once), cell size, walls, absorbing layers, clock, species and beams, and stands at its place in the grid",
                    groups=[], custom=[tiling.tiling(), tiling.tiling(config(drop=NOPML), "no PML", False), tiling.tiling(config(ENABLE_EXTERNAL_FIELDS="true"), "external fields", True, True)])

PROPS["P14"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("beam", [Pair(r"^BeamP::inject\(\)", "spec_inject"), Pair(r"^BeamP::BeamP\(.*", "spec_beam")], ["beam.cpp"]),
])

FLAT = ["SWITCH_PLASMA_SPATIAL_FLAT"]
THERM = ["SWITCH_PLASMA_VELOCITY_THERMAL"]
PLACE = [r"algo::common::nearest_divide.*", SP + r"rectangular_\w+_placement.*", SP + r"set_weight\(.*", SP + r"(thermal|rectangular|eigen)_velocity_distribution\(.*"]
_NEAR = lambda c: "nearest_divide" in c.dem
_CTOR = Pair(SP + r"SpecieP\(unsigned.*", "spec_specie", callfilter=_NEAR)
_DISPATCH = [_CTOR, Pair(SP + r"fullyfill_spatial_distribution\(\)", "spec_fill"), Pair(SP + r"velocity_distribution\(\)", "spec_velocity")]
PROPS["P15"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("parts", [Pair(SP + r"rectangular_random_placement.*", "spec_place_flat"), Pair(SP + r"rectangular_centered_placement.*", "spec_place_centered"),
                    Pair(SP + r"rectangular_regular_placement.*", "spec_place_regular"), Pair(SP + r"set_weight\(.*", "spec_weight"),
                    Pair(SP + r"thermal_velocity_distribution\(.*", "spec_velocity_thermal"), Pair(SP + r"rectangular_velocity_distribution\(.*", "spec_velocity_rectangular"),
                    Pair(SP + r"eigen_velocity_distribution\(.*", "spec_velocity_eigen")], ["plasma.cpp"], opaque=[r"math::maxwell_juettner::.*", r"math::random::random_reverse.*"]),
    Group("random", [Pair(SP + r"rectangular_random_placement.*", "spec_place_random")], ["plasma.cpp"], cfg=config(drop=FLAT, SWITCH_PLASMA_SPATIAL_RANDOM="true")),
    Group("whole", _DISPATCH, ["plasma.cpp"], opaque=PLACE),
    Group("centered", _DISPATCH, ["plasma.cpp"], cfg=config(drop=FLAT + THERM, SWITCH_PLASMA_SPATIAL_CENTERED="true", SWITCH_PLASMA_VELOCITY_EIGEN="true"), opaque=PLACE),
    Group("regular", _DISPATCH, ["plasma.cpp"], cfg=config(drop=FLAT + THERM, SWITCH_PLASMA_SPATIAL_REGULAR="true", SWITCH_PLASMA_VELOCITY_RECTANGULAR="true"), opaque=PLACE),
])

_EXT = config(ENABLE_EXTERNAL_FIELDS="true")
EF = "ExternalFields::"
WALLS_X = [["pre_ext_walls_%d" % i, "pre_external"] for i in range(16)]
PROPS["P16"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("fields", [Pair(EF + r"set_el_field_homogenous_z\(\)", "spec_external_e", WALLS_X), Pair(EF + r"set_magn_field_homogenous_z\(\)", "spec_external_h", WALLS_X)], ["external.cpp"], cfg=_EXT),
    Group("profile", [Pair(EF + r"operator\(\)\(\)", "spec_external"), Pair(EF + r"ExternalFields\(Geometry.*", "spec_external_ctor", aborts=True)], ["external.cpp"], cfg=_EXT, opaque=[EF + "set_.*"]),
])

_PARTS = [r"(CurrentVB|CurrentZigZag)::Current\w+\(.*", r"MaxwellSolverYee::MaxwellSolverYee\(.*", r"ExternalFields::ExternalFields\(.*", r"Collisions\w*::Collisions\w*\(.*", r"Pusher\w+::Pusher\w+\(.*"]
_DOM = Pair(r"Domain::Domain\(Geometry.*", "spec_domain", calls_unordered=True, aborts=True)
_asm = lambda name, **kw: Group(name, [_DOM], ["assemble.cpp"], cfg=config(**kw), opaque=_PARTS)
PROPS["P24"] = dict(explanation=EXPL, rule=RULE, groups=[
    _asm("default"), _asm("zigzag, Vay, TA77S", drop=["SWITCH_CCS_VB"] + NOADAPT, SWITCH_CCS_ZIGZAG="true", SWITCH_PUSHER_VAY="true", ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"),
    _asm("external fields, SK98", ENABLE_EXTERNAL_FIELDS="true", ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_SK98="true"),
    _asm("external fields, Higuera-Cary, P12", drop=NOADAPT, ENABLE_EXTERNAL_FIELDS="true", SWITCH_PUSHER_HC="true", ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_P12="true"),
])

OE = r"OutEngineHDF5::"
_NOMSG = lambda c: "msg::" not in c.dem
PROPS["P18"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("writer", [Pair(r"OutWriter::operator\(\)\(\)", "spec_write")], ["output.cpp"], opaque=[OE + r"write_\w+\(.*"]),
    Group("new writer", [Pair(r"OutWriter::OutWriter\(HighFive.*", "spec_writer")], ["output.cpp"]),
    Group("engine", [Pair(OE + r"OutEngineHDF5\(HighFive.*", "spec_engine"), Pair(OE + r"write_rec\(.*", "spec_write_rec"), Pair(OE + r"write_vec\(.*", "spec_write_vec"),
                     Pair(OE + r"write_dot\(.*", "spec_write_dot"), Pair(OE + r"extend_dataset\(.*", "spec_extend")], ["output.cpp"]),
    Group("probes", [Pair(r"OutController::OutController\(HighFive.*", "spec_controller", [["pre_probes_%d" % i] for i in range(9)], callfilter=_NOMSG), Pair(r"OutController::operator\(\)\(\)", "spec_output", callfilter=_NOMSG),
                     Pair(r"OutController::init_datasets\(\)", "spec_datasets", callfilter=_NOMSG)], ["probes.cpp"],
          opaque=[OE + ".*", "OutWriter::.*", r"OutController::init_datasets\(\)", r"SpecieP::calc_\w+\(\)", r"Grid<double>::overlay_.*", "msg::.*"]),
])

_KEY = ["va_json_key"]
_HASH = _KEY + [r"algo::common::hash_from_string\(.*"]
def _order(names):
    """the steps of reading the configuration that build on each other"""
    rx = re.compile(r"Cfg::(init_|)(%s).*" % names)
    return Pair(r"Cfg::Cfg\(.*", "spec_cfg", callfilter=lambda c: bool(rx.match(c.dem)), skip_addr=lambda a: True)


PROPS["P21"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("time and output", [Pair(r"Cfg::init_time\(\)", "spec_time", aborts="same"), Pair(r"Cfg::init_output_data\(\)", "spec_output_data", aborts="same")], ["cfg.cpp"], pure=_KEY),
    Group("species", [Pair(r"Cfg::init_particles\(\)", "spec_particles", aborts="same"), Pair(r"Cfg::init_beam\(\)", "spec_beams", aborts="same")], ["cfg.cpp"], pure=_HASH),
    Group("probes", [Pair(r"Cfg::init_probes\(\)", "spec_probes", aborts="same")], ["cfg.cpp"], pure=_KEY),
    Group("order", [_order("geometry|particles|beam|weight|method"), _order("geometry|probes"), _order("time|method"), _order("output|method"), _order("external|method")], ["cfg.cpp"], opaque=[r"Cfg::(init|weight|method)_.*"]),
    Group("external", [Pair(r"Cfg::init_external_fields\(\)", "spec_external", aborts="same")], ["cfg.cpp"], cfg=config(ENABLE_EXTERNAL_FIELDS="true"), pure=_KEY),
    Group("geometry", [Pair(r"Cfg::init_geometry\(\)", "spec_geometry", aborts="same")], ["cfg.cpp"], pure=_KEY),
    Group("macroparticles", [Pair(r"Cfg::weight_macro_amount\(\)", "spec_weights", aborts="same"), Pair(r"Cfg::method_limitations_check\(\)", "spec_limits", aborts="same")], ["cfg.cpp"], pure=_KEY + [r"phys::plasma::.*"]),
])

COL = r"Collisions::"
_RND = [r"math::random::.*", r"phys::plasma::.*"]
PROPS["P17"] = dict(explanation=EXPL, rule=RULE, groups=[
    Group("cells", [Pair(COL + r"clear\(\)", "spec_clear"), Pair(COL + r"sort_to_cells\(\)", "spec_sort_to_cells"), Pair(COL + r"geometry_cell_volume\(.*", "spec_volume"),
                    Pair(COL + r"get_el_density\(.*", "spec_el_density"), Pair(COL + r"get_ion_density\(.*", "spec_ion_density"),
                    Pair(COL + r"get_el_temperature\(.*", "spec_el_temperature"), Pair(COL + r"get_ion_temperature\(.*", "spec_ion_temperature"),
                    Pair(COL + r"collect_weighted.*", "spec_collect")], ["collisions.cpp"], cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"), opaque=[r"SpecieP::calc_temperature.*"]),
    Group("ta77s", [Pair(r"CollisionsTA77S::collide_single\(.*", "spec_single_ta77s")], ["collisions.cpp"], cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"), opaque=_RND),
    Group("sk98", [Pair(r"CollisionsSK98::collide_single\(.*", "spec_single_sk98")], ["collisions.cpp"], cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_SK98="true"),
          opaque=[r"math::random::.*"], pure=[r"phys::plasma::.*", r"phys::rel::lorenz_factor(_inv)?\(.*"]),
    Group("p12", [Pair(r"CollisionsP12::collide_single\(.*", "spec_single_p12")], ["collisions.cpp"], cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_P12="true"),
          opaque=[r"math::random::.*"], pure=[r"phys::plasma::.*", r"phys::rel::lorenz_factor(_inv)?\(.*"]),
    Group("pairs", [Pair(r"CollisionsTA77S::collide\(\)", "spec_collide_ta77s", calls_unordered=True), Pair(r"CollisionsSK98::collide\(\)", "spec_collide_sk98", calls_unordered=True),
                    Pair(r"CollisionsP12::collide\(\)", "spec_collide_p12", calls_unordered=True, callfilter=lambda c: "collide_single" in c.name)], ["collisions.cpp"],
          cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"), opaque=_RND + [r"Collisions\w+::collide_single\(.*", COL + r"get_\w+\(.*"]),
    Group("steps", [Pair(r"CollisionsTA77S::operator\(\).*", "spec_step_corrected", ["pre_step_corrected"]), Pair(r"CollisionsSK98::operator\(\).*", "spec_step_sk98", ["pre_step_sk98"]), Pair(r"CollisionsP12::operator\(\).*", "spec_step_p12", ["pre_step_p12"])], ["collisions.cpp"],
          cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"), opaque=[r"Collisions\w*::(clear|sort_to_cells|random_sort|collect_weighted_params_tot_grid|collide|correct_velocities)\(\)"]),
    Group("create", [Pair(COL + r"Collisions\(Geometry.*", "spec_create")], ["collisions.cpp"], cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true")),
    Group("restore", [Pair(r"CollisionsTA77S::correct_velocities\(\)", "spec_restore"), Pair(COL + r"random_sort\(\)", "spec_shuffle", callfilter=lambda c: "random_shuffle" in c.name)], ["collisions.cpp"],
          cfg=config(ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true"), opaque=[r".*random_shuffle.*"]),
])
