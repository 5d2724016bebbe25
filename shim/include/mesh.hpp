// Stand-in for swage::Mesh of LANL ELEMENTS: straightforward serial code with
// the patch ordering documented in Fierro's own single-node ancestor (mesh.h).
#ifndef SHIM_SWAGE_MESH_HPP
#define SHIM_SWAGE_MESH_HPP
#include "matar.h"
#include <map>
#include <array>
#ifndef PI
#define PI 3.141592653589793
#endif
using namespace mtr;
namespace swage {
#ifndef PI
#define PI 3.141592653589793
#endif
using namespace mtr;
namespace elem_types { enum elem_type { linear_simplex_element = 1, linear_tensor_element = 2, arbitrary_tensor_element = 3 }; }
struct Mesh {
    elem_types::elem_type elem_kind = elem_types::linear_tensor_element;
    size_t Pn = 1;
    size_t num_dims = 0, num_nodes = 0, num_elems = 0, num_nodes_in_elem = 0;
    size_t num_patches_in_elem = 0, num_surfs_in_elem = 0, num_patches_in_surf = 1, num_zones_in_elem = 1;
    size_t num_gauss_in_elem = 1, num_leg_gauss_in_elem = 1, num_lob_gauss_in_elem = 1;
    size_t num_nodes_in_patch = 0, num_corners = 0, num_patches = 0, num_surfs = 0;
    size_t num_bdy_patches = 0, num_bdy_nodes = 0, num_bdy_sets = 0;

    RaggedRightArrayKokkos<size_t> corners_in_node;
    CArrayKokkos<size_t> num_corners_in_node;
    RaggedRightArrayKokkos<size_t> elems_in_node;
    RaggedRightArrayKokkos<size_t> nodes_in_node;
    CArrayKokkos<size_t> num_nodes_in_node;
    DCArrayKokkos<size_t> nodes_in_elem;
    CArrayKokkos<size_t> corners_in_elem;
    RaggedRightArrayKokkos<size_t> elems_in_elem;
    CArrayKokkos<size_t> num_elems_in_elem;
    CArrayKokkos<size_t> patches_in_elem;
    CArrayKokkos<size_t> surfs_in_elem;
    CArrayKokkos<size_t> zones_in_elem;
    CArrayKokkos<size_t> nodes_in_patch;
    CArrayKokkos<size_t> elems_in_patch;
    CArrayKokkos<size_t> bdy_patches;
    CArrayKokkos<size_t> bdy_nodes;
    RaggedRightArrayKokkos<size_t> bdy_patches_in_set;
    DCArrayKokkos<size_t> num_bdy_patches_in_set;
    RaggedRightArrayKokkos<size_t> bdy_nodes_in_set;
    DCArrayKokkos<size_t> num_bdy_nodes_in_set;

    struct lin { size_t n_ = 1; size_t operator()(size_t e, size_t l) const { return e * n_ + l; } size_t host(size_t e, size_t l) const { return e * n_ + l; } };
    lin gauss_in_elem, legendre_in_elem, lobatto_in_elem;

    void initialize_nodes(const size_t n) { num_nodes = n; }
    void initialize_elems(const size_t n, const size_t d) {
        num_dims = d; num_nodes_in_elem = (d == 3) ? 8 : 4; num_elems = n;
        nodes_in_elem = DCArrayKokkos<size_t>(n, num_nodes_in_elem, "mesh.nodes_in_elem");
        corners_in_elem = CArrayKokkos<size_t>(n, num_nodes_in_elem, "mesh.corners_in_elem");
        num_gauss_in_elem = num_zones_in_elem = 1;
        gauss_in_elem.n_ = 1;
    }
    void initialize_corners(const size_t n) { num_corners = n; }
    void init_bdy_sets(size_t n) {
        if (n == 0) n = 1;
        num_bdy_sets = n;
        num_bdy_patches_in_set = DCArrayKokkos<size_t>(n, "mesh.num_bdy_patches_in_set");
        num_bdy_nodes_in_set = DCArrayKokkos<size_t>(n, "mesh.num_bdy_nodes_in_set");
    }
    void build_connectivity() {
        const size_t npe = num_nodes_in_elem;
        std::vector<std::vector<size_t>> corners(num_nodes), elems(num_nodes);
        for (size_t e = 0; e < num_elems; e++)
            for (size_t l = 0; l < npe; l++) {
                size_t n = nodes_in_elem(e, l);
                if (n >= num_nodes) shim::bounds_fail("mesh.nodes_in_elem", "node id " + std::to_string(n) + " of " + std::to_string(num_nodes));
                corners[n].push_back(e * npe + l);
                elems[n].push_back(e);
                corners_in_elem(e, l) = e * npe + l;
            }
        num_corners_in_node = CArrayKokkos<size_t>(num_nodes, "mesh.num_corners_in_node");
        for (size_t n = 0; n < num_nodes; n++) num_corners_in_node(n) = corners[n].size();
        corners_in_node = RaggedRightArrayKokkos<size_t>(num_corners_in_node, "mesh.corners_in_node");
        elems_in_node = RaggedRightArrayKokkos<size_t>(num_corners_in_node, "mesh.elems_in_node");
        for (size_t n = 0; n < num_nodes; n++)
            for (size_t j = 0; j < corners[n].size(); j++) { corners_in_node(n, j) = corners[n][j]; elems_in_node(n, j) = elems[n][j]; }
        // neighbours
        std::vector<std::vector<size_t>> nb(num_elems);
        num_elems_in_elem = CArrayKokkos<size_t>(num_elems, "mesh.num_elems_in_elem");
        for (size_t e = 0; e < num_elems; e++) {
            for (size_t l = 0; l < npe; l++)
                for (size_t o : elems[nodes_in_elem(e, l)])
                    if (o != e && std::find(nb[e].begin(), nb[e].end(), o) == nb[e].end()) nb[e].push_back(o);
            num_elems_in_elem(e) = nb[e].size();
        }
        elems_in_elem = RaggedRightArrayKokkos<size_t>(num_elems_in_elem, "mesh.elems_in_elem");
        for (size_t e = 0; e < num_elems; e++) for (size_t j = 0; j < nb[e].size(); j++) elems_in_elem(e, j) = nb[e][j];
        // patches
        static const size_t hex[24] = {0,4,6,2, 1,3,7,5, 0,1,5,4, 3,2,6,7, 0,2,3,1, 4,5,7,6};
        static const size_t quad[8] = {0,3, 1,2, 0,1, 3,2};
        const size_t* ord = num_dims == 3 ? hex : quad;
        num_nodes_in_patch = 2 * (num_dims - 1);
        num_patches_in_elem = 2 * num_dims;
        const size_t npp = num_nodes_in_patch, ppe = num_patches_in_elem;
        auto key = [&](size_t e, size_t p) { std::vector<size_t> k(npp); for (size_t a = 0; a < npp; a++) k[a] = nodes_in_elem(e, ord[p * npp + a]); std::sort(k.begin(), k.end()); return k; };
        std::map<std::vector<size_t>, std::vector<std::pair<size_t, size_t>>> owners;
        for (size_t e = 0; e < num_elems; e++) for (size_t p = 0; p < ppe; p++) owners[key(e, p)].push_back({e, p});
        patches_in_elem = CArrayKokkos<size_t>(num_elems, ppe, "mesh.patches_in_elem");
        std::vector<std::vector<char>> done(num_elems, std::vector<char>(ppe, 0));
        std::vector<std::vector<std::pair<size_t, size_t>>> pl; std::vector<size_t> bdy;
        for (size_t e = 0; e < num_elems; e++) {
            // interior patches first, then boundary patches, as the original does
            for (size_t p = 0; p < ppe; p++) {
                if (done[e][p]) continue;
                auto& o = owners[key(e, p)];
                if (o.size() < 2) continue;
                for (auto& q : o) { done[q.first][q.second] = 1; patches_in_elem(q.first, q.second) = pl.size(); }
                pl.push_back(o);
            }
            for (size_t p = 0; p < ppe; p++) {
                if (done[e][p]) continue;
                done[e][p] = 1; patches_in_elem(e, p) = pl.size();
                bdy.push_back(pl.size()); pl.push_back({{e, p}});
            }
        }
        num_patches = pl.size(); num_bdy_patches = bdy.size();
        num_surfs = num_patches; num_surfs_in_elem = ppe;
        nodes_in_patch = CArrayKokkos<size_t>(num_patches, npp, "mesh.nodes_in_patch");
        elems_in_patch = CArrayKokkos<size_t>(num_patches, 2, "mesh.elems_in_patch");
        for (size_t k = 0; k < num_patches; k++) {
            for (size_t a = 0; a < pl[k].size() && a < 2; a++) elems_in_patch(k, a) = pl[k][a].first;
            // the last element visited sets the node order of a shared patch
            auto last = pl[k].back();
            for (size_t a = 0; a < npp; a++) nodes_in_patch(k, a) = nodes_in_elem(last.first, ord[last.second * npp + a]);
        }
        bdy_patches = CArrayKokkos<size_t>(num_bdy_patches, "mesh.bdy_patches");
        for (size_t k = 0; k < num_bdy_patches; k++) bdy_patches(k) = bdy[k];
        std::vector<char> seen(num_nodes, 0); std::vector<size_t> bn;
        for (size_t k : bdy) for (size_t a = 0; a < npp; a++) { size_t n = nodes_in_patch(k, a); if (!seen[n]) { seen[n] = 1; bn.push_back(n); } }
        num_bdy_nodes = bn.size();
        bdy_nodes = CArrayKokkos<size_t>(num_bdy_nodes, "mesh.bdy_nodes");
        for (size_t k = 0; k < num_bdy_nodes; k++) bdy_nodes(k) = bn[k];
        // node-node (edges)
        std::vector<std::vector<size_t>> nn(num_nodes);
        auto add = [&](size_t a, size_t b) { if (std::find(nn[a].begin(), nn[a].end(), b) == nn[a].end()) nn[a].push_back(b); };
        for (size_t k = 0; k < num_patches; k++) {
            if (num_dims == 3) for (size_t a = 0; a < npp; a++) { size_t x = nodes_in_patch(k, a), y = nodes_in_patch(k, (a + 1) % npp); add(x, y); add(y, x); }
            else { size_t x = nodes_in_patch(k, 0), y = nodes_in_patch(k, 1); add(x, y); add(y, x); }
        }
        num_nodes_in_node = CArrayKokkos<size_t>(num_nodes, "mesh.num_nodes_in_node");
        for (size_t n = 0; n < num_nodes; n++) num_nodes_in_node(n) = nn[n].size();
        nodes_in_node = RaggedRightArrayKokkos<size_t>(num_nodes_in_node, "mesh.nodes_in_node");
        for (size_t n = 0; n < num_nodes; n++) for (size_t j = 0; j < nn[n].size(); j++) nodes_in_node(n, j) = nn[n][j];
    }
};
} // namespace swage
#endif
