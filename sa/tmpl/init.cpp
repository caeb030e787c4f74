// instantiations only: nothing here is compared, the instantiated repository templates are
#include <opm/core/simulator/initState.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
namespace Opm {
template void initStateBasic<TwophaseState>(const UnstructuredGrid&, const IncompPropertiesInterface&, const parameter::ParameterGroup&, const double, TwophaseState&);
template void initStateBasic<BlackoilState>(const UnstructuredGrid&, const BlackoilPropertiesInterface&, const parameter::ParameterGroup&, const double, BlackoilState&);
template void initStateFromDeck<IncompPropertiesInterface, TwophaseState>(const UnstructuredGrid&, const IncompPropertiesInterface&, const EclipseGridParser&, const double, TwophaseState&);
template void initStateFromDeck<BlackoilPropertiesInterface, BlackoilState>(const UnstructuredGrid&, const BlackoilPropertiesInterface&, const EclipseGridParser&, const double, BlackoilState&);
template void initBlackoilSurfvol<BlackoilPropertiesInterface, BlackoilState>(const UnstructuredGrid&, const BlackoilPropertiesInterface&, BlackoilState&);
}
