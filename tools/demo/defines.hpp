/* include/defines.hpp.  Generated from defines.hpp.in by configure.  */
/* include/defines.hpp.in.  Generated from configure.ac by autoheader.  */

/* define used C(XX)FLAGS */
#define CXXFLAGS "-m64 -mcmodel=medium -std=c++17  -fopenmp -fopenmp-simd -ffast-math -O3 -march=native -funroll-loops -Wno-write-strings -freciprocal-math -fcx-fortran-rules -msse -mavx"

/* Enable coulomb collisions */
/* #undef ENABLE_COULOMB_COLLISIONS */

/* Use debug option */
/* #undef ENABLE_DEBUG */

/* Enable development options */
/* #undef ENABLE_DEVELOPMENT */

/* Enable experimental options */
/* #undef ENABLE_EXPERIMENTAL */

/* Apply external fields */
/* #undef ENABLE_EXTERNAL_FIELDS */

/* Enable FIXME messages */
/* #undef ENABLE_FIXME */

/* Use HDF5 data format */
#define ENABLE_HDF5 true

/* Directive to enable acurate IEEE calculations, instead of speed-optimized
   */
/* #undef ENABLE_IEEE */

/* Enable openMPI support */
/* #undef ENABLE_MPI */

/* Set OpenMP threads to be created dynamically */
/* #undef ENABLE_OMP_DYNAMIC */

/* Use PML (10.1006/jcph.1994.1159) */
#define ENABLE_PML true

/* Performance debug option */
/* #undef ENABLE_PROFILER */

/* Run app in singlethread mode */
/* #undef ENABLE_SINGLETHREAD */

/* Define to 1 if you have the `hdf5' library (-lhdf5). */
/* #undef HAVE_LIBHDF5 */

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "alexander.vynnyk@protonmail.com"

/* define used C(XX)FLAGS */
#define PACKAGE_DEPS "gcc@6+;picojson@1.3.1-dev;python@3+;hdf5@1.12.0;HighFive@2.2.2;loguru@2.2.0"

/* Define to the full name of this package. */
#define PACKAGE_NAME "PiCoPiC"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "PiCoPiC c5176a8"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "picopic"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "c5176a8"

/* Relativistit calculations limit (for boris-adaptive pusher) */
#define REL_LIMIT 5e7

/* Set plasma charge conservation current deposition scheme to
   Villasenor-Buneman */
#define SWITCH_CCS_VB true

/* Set plasma charge conservation current deposition scheme to ZigZag */
/* #undef SWITCH_CCS_ZIGZAG */

/* Set coulomb collision scheme to P12 */
/* #undef SWITCH_COULOMB_COLLISIONS_P12 */

/* Set coulomb collision scheme to SK98 */
/* #undef SWITCH_COULOMB_COLLISIONS_SK98 */

/* Set coulomb collision scheme to TA77S */
/* #undef SWITCH_COULOMB_COLLISIONS_TA77S */

/* Yee FDTD Maxwellian solver */
#define SWITCH_MAXWELL_SOLVER_YEE true

/* Set plasma spatial distribution type to centered */
/* #undef SWITCH_PLASMA_SPATIAL_CENTERED */

/* Set plasma spatial distribution type to flat */
#define SWITCH_PLASMA_SPATIAL_FLAT true

/* Set plasma spatial distribution type to random */
/* #undef SWITCH_PLASMA_SPATIAL_RANDOM */

/* Set plasma spatial distribution type to regular */
/* #undef SWITCH_PLASMA_SPATIAL_REGULAR */

/* Set plasma velocity distribution type to eigen */
/* #undef SWITCH_PLASMA_VELOCITY_EIGEN */

/* Set plasma velocity distribution type to rectangular */
/* #undef SWITCH_PLASMA_VELOCITY_RECTANGULAR */

/* Set plasma velocity distribution type to thermal */
#define SWITCH_PLASMA_VELOCITY_THERMAL true

/* Set particles pusher to Boris classic */
/* #undef SWITCH_PUSHER_BORIS */

/* Set particles pusher to Boris adaptive */
#define SWITCH_PUSHER_BORIS_ADAPTIVE true

/* Set particles pusher to Boris relativistic */
/* #undef SWITCH_PUSHER_BORIS_RELATIVISTIC */

/* Set particles pusher to Higuera-Cary */
/* #undef SWITCH_PUSHER_HC */

/* Set particles pusher to Vay */
/* #undef SWITCH_PUSHER_VAY */
