// the mesh builder without its own main: builds meshes from descriptions, writes them as VTK text, reads them back and
// prints what was read.  One process may do several.
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdio>
#include "MeshBuilder.h"
#include "MeshIO.h"

int main(int argc, char* argv[])
{
    for (int a = 1; a < argc; a++) {
        try {
            MeshBuilderConfig config;
            Yaml::from_file_strict(argv[a], config);
            Mesh mesh = MeshBuilder::build_mesh(config.input);
            std::stringstream s;
            MeshIO::write_vtk(s, mesh);
            std::ofstream(std::string(argv[a]) + ".vtk") << s.str();
            Mesh back = MeshIO::read_vtk(s);
            FILE* o = fopen((std::string(argv[a]) + ".back").c_str(), "w");
            fprintf(o, "%d %d\n", back.num_dim, back.p_order);
            for (auto* m : {&mesh, &back}) {
                fprintf(o, "%zu %zu\n", m->points.dims(0), m->points.dims(1));
                for (size_t i = 0; i < m->points.dims(0); i++) { for (size_t j = 0; j < m->points.dims(1); j++) fprintf(o, "%.17g ", m->points(i, j)); fprintf(o, "\n"); }
                fprintf(o, "%zu %zu\n", m->element_point_index.dims(0), m->element_point_index.dims(1));
                for (size_t i = 0; i < m->element_point_index.dims(0); i++) { for (size_t j = 0; j < m->element_point_index.dims(1); j++) fprintf(o, "%d ", m->element_point_index(i, j)); fprintf(o, "\n"); }
                for (size_t i = 0; i < m->element_types.dims(0); i++) fprintf(o, "%d ", m->element_types(i));
                fprintf(o, "\n");
            }
            fclose(o);
            printf("OK\n");
        } catch (std::exception& e) {
            printf("ERROR %s\n", e.what());
        }
    }
    return 0;
}
