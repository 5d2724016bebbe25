#ifndef SHIM_ELEMENTS_H
#define SHIM_ELEMENTS_H
#include "matar.h"
#include "mesh.hpp"
#endif
