VT="cfdtools/vtk/_vtk.py"; VL="cfdtools/vtk/_vtkList.py"; H="cfdtools/hdf5/_hdf5.py"; D="cfdtools/data.py"; CLI="cfdtools/_cli.py"; MC="cfdtools/meshbase/_connectivity.py"; ME="cfdtools/meshbase/_mesh.py"; API="cfdtools/api.py"
M=[
 ("c16 Group","C16",H,"    Group = None  # still importable from cfdtools.hdf5\n",""),
 ("c16 annotation pv","C16",VT,"def set_pvmesh(self, pvmesh: cfdmesh.Mesh):","def set_pvmesh(self, pvmesh: pv.UnstructuredGrid):"),
 ("c16 vtk table unguarded","C16",VT,'''class vtkMesh:
''','''class vtkMesh:
    _celltypes = tuple(ele_vtktype)
'''),
 ("c16 circular data from mesh","C16",D,"import cfdtools.meshbase as meshbase","from cfdtools.meshbase import Mesh\nimport cfdtools.meshbase as meshbase"),
 ("c16 circular api","C16",API,"import numpy as np\n","import numpy as np\n\nfrom cfdtools.meshbase._elements import elem2faces\n"),
 ("c16 circular conn","C16",MC,"import cfdtools.api as api","import cfdtools.api as api\nfrom cfdtools.meshbase._mesh import submeshmark"),
 ("c16 ic3 init v4","C16","cfdtools/ic3/__init__.py","import cfdtools.ic3.writerV3","import cfdtools.ic3.writerV3\nimport cfdtools.ic3.writerV4"),
 ("c16 annotation data","C16",D,"def set_mesh(self, mesh):","def set_mesh(self, mesh: meshbase.Mesh):"),
 ("c16 script rename","C16",CLI,"def vtkbrief(argv=None):","def vtkbriefs(argv=None):"),
 ("c16 script arg","C16",CLI,"def vtkbrief(argv=None):","def vtkbrief(argv):"),
 ("c16 pandas","C16",D,"import numpy as np","import numpy as np\nimport pandas as pd"),
 ("c16 R guard local",None,VT,"    def brief(self):","    def brief(self):\n        import pyvista as pv2"),
 ("c16 R order",None,CLI,"import cfdtools.api as api\n","import cfdtools.api as api\nfrom cfdtools.api import _files\n"),
 ("c16 R from",None,D,"import cfdtools.hdf5 as hdf5","from cfdtools import hdf5"),
 ("c16 R annotation future",None,VT,"import logging\n","from __future__ import annotations\nimport logging\n"),
]
