// Overlay: the repository's multibody/pch.hpp only pulls in pinocchio, which is
// not installed; the headers compiled here (cones, numdiff cost) need none of it.
#ifndef CROCODDYL_MULTIBODY_PCH_HPP_
#define CROCODDYL_MULTIBODY_PCH_HPP_
#include "crocoddyl/core/pch.hpp"
#endif
