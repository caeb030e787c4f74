//===========================================================================
//
// File: ParameterTools.hpp
//
// Created: Tue Jun  2 19:02:19 2009
//
// Author(s): B�rd Skaflestad     <bard.skaflestad@sintef.no>
//            Atgeirr F Rasmussen <atgeirr@sintef.no>
//
// $Date$
//
// $Revision$
//
//===========================================================================

/*
  Copyright 2009, 2010 SINTEF ICT, Applied Mathematics.
  Copyright 2009, 2010 Statoil ASA.

  This file is part of the Open Porous Media project (OPM).

  OPM is free software: you can redistribute it and/or modify
  it under the terms of the GNU General Public License as published by
  the Free Software Foundation, either version 3 of the License, or
  (at your option) any later version.

  OPM is distributed in the hope that it will be useful,
  but WITHOUT ANY WARRANTY; without even the implied warranty of
  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
  GNU General Public License for more details.

  You should have received a copy of the GNU General Public License
  along with OPM.  If not, see <http://www.gnu.org/licenses/>.
*/

#ifndef OPM_PARAMETERTOOLS_HEADER
#define OPM_PARAMETERTOOLS_HEADER

#include <string>
#include <utility>

namespace Opm {
    namespace parameter {
	std::pair<std::string, std::string> split(const std::string& name);
    } // namespace parameter
} // namespace Opm

#endif // OPM_PARAMETERTOOLS_HEADER
