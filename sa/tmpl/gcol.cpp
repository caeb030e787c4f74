#include <opm/core/grid.h>
#include <opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp>
#include <opm/core/transport/implicit/SimpleFluid2pWrappingProps.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
namespace Opm {
template class GravityColumnSolver<SinglePointUpwindTwoPhase<SimpleFluid2pWrappingProps> >;
}
