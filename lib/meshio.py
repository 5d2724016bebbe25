"""Writers of the mesh file formats the multiphysics application reads."""
import numpy as np
from problems import geo_file, IJK2ENS


def fmt(v, g=None):
    return "%.17g" % v


def vtu_file(x, conn, ids=None, kind=12, per_line=None, dim=3):
    """XML unstructured grid; kind 11: ijk order, 12: hexahedron order, 9: quadrilaterals (conn of quadrilaterals goes round)"""
    o = conn if kind == 11 else conn[:, [0, 1, 3, 2, 4, 5, 7, 6]] if kind == 12 or kind == 72 else conn
    s = '<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">\n  <UnstructuredGrid>\n    <Piece NumberOfPoints="%d" NumberOfCells="%d">\n' % (len(x), len(conn))
    s += '      <Points>\n        <DataArray type="Float64" Name="Points" NumberOfComponents="3" format="ascii">\n'
    for p in x:
        s += "          " + " ".join(fmt(v) for v in (list(p) + [0.0])[:3]) + "\n"
    s += "        </DataArray>\n      </Points>\n      <Cells>\n"

    def arr(name, rows):
        return '        <DataArray type="Int64" Name="%s" format="ascii">\n%s        </DataArray>\n' % (name, "".join("          " + " ".join(str(int(v)) for v in r) + "\n" for r in rows))

    def chunk(v):
        k = per_line or 6
        return [v[a:a + k] for a in range(0, len(v), k)]
    s += arr("connectivity", o)
    s += arr("offsets", chunk([(k + 1) * conn.shape[1] for k in range(len(conn))]))
    s += arr("types", chunk([kind] * len(conn)))
    s += "      </Cells>\n"
    if ids is not None:
        s += "      <CellData>\n" + arr("ObjectId", chunk(list(ids))) + "      </CellData>\n"
    return s + "    </Piece>\n  </UnstructuredGrid>\n</VTKFile>\n"


def vtk_file(x, conn, sep=" "):
    """legacy ASCII unstructured grid"""
    s = "# vtk DataFile Version 3.0\nmesh\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS %d double\n" % len(x)
    for p in x:
        s += sep.join(fmt(v) for v in (list(p) + [0.0])[:3]) + "\n"
    n = conn.shape[1]
    s += "\nCELLS %d %d\n" % (len(conn), len(conn) * (n + 1))
    for e in conn:
        s += "%d " % n + " ".join(str(e[k]) for k in (IJK2ENS if n == 8 else range(n))) + "\n"
    s += "\nCELL_TYPES %d\n" % len(conn) + "".join("%d\n" % (12 if n == 8 else 9) for e in conn)
    return s


def inp_file(x, conn):
    """Abaqus input"""
    s = "*Heading\n** Job name: mesh\n*Part, name=Part-1\n*Node\n"
    for k, p in enumerate(x):
        s += "%7d, %s, %s, %s\n" % (k + 1, fmt(p[0]), fmt(p[1]), fmt(p[2]))
    s += "*Element, type=C3D8R\n"
    for k, e in enumerate(conn):
        s += "%d, " % (k + 1) + ", ".join("%d" % (e[j] + 1) for j in IJK2ENS) + "\n"
    return s + "*Nset, nset=Set-1, generate\n  1, %d, 1\n*End Part\n" % len(x)
