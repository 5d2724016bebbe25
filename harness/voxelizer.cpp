// runs the voxelizer of the legacy solver as a library.  arguments: stl vtk nx ny nz lx ly lz
#include "stl-to-voxelvtk.h"
#include <cstdio>
#include <string>

int main(int, char** v)
{
    int n[3] = { atoi(v[3]), atoi(v[4]), atoi(v[5]) };
    auto [grid, dx, dy, dz] = Voxelizer::create_voxel_vtk(v[1], v[2], n[0], n[1], n[2], atof(v[6]), atof(v[7]), atof(v[8]));
    FILE* o = fopen("o.lib", "w");
    fprintf(o, "%.17g %.17g %.17g\n", dx, dy, dz);
    for (int k = 0; k < n[2]; k++)
        for (int j = 0; j < n[1]; j++)
            for (int i = 0; i < n[0]; i++) fprintf(o, "%d\n", (int)grid(k, j, i));
    fclose(o);
}
