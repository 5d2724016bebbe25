#include "mesh.hpp"
