D="cfdtools/data.py"; V="cfdtools/vtk/_vtk.py"; L="cfdtools/vtk/_vtkList.py"; H="cfdtools/hdf5/_hdf5.py"
M=[
("xdmf index pad","C27",D,'{filename}:/datalist/i{i:06}/{vname}','{filename}:/datalist/i{i:05}/{vname}'),
("xdmf index 1","C27",D,'{filename}:/datalist/i{i:06}/{vname}','{filename}:/datalist/i{i+1:06}/{vname}'),
("dump index pad","C27",D,'hgroup.create_group(f"i{i:06}")','hgroup.create_group(f"i{i:04}")'),
("xdmf prop","C27",D,'vname: datadict[vname] for vname in datadict if vname not in self._property_names','vname: datadict[vname] for vname in datadict'),
("xdmf from first","C27",D,'''            data_wo_properties = {
                vname: datadict[vname] for vname in datadict if vname''','''            data_wo_properties = {
                vname: datadict[vname] for vname in self._datalist[0] if vname'''),
("xdmf mesh path","C27",V,'{filename}:/mesh/cells/{ele_vtktype[itype]}','{filename}:/mesh/cells/{PYVISTA2XDMF[itype]}'),
("xdmf nodes path","C27",V,'{filename}:/mesh/nodes','{filename}:/mesh/points'),
("dump nodes","C27",H,'create_dataset("nodes"','create_dataset("points"'),
("dump cells attr","C27",H,"hgroup.attrs['meshtype'] = meshtype","hgroup.attrs['type'] = meshtype"),
("import attr",None if False else "C27",V,"assert hgroup.attrs['meshtype'] in ('unsmesh',)","assert hgroup.attrs['meshtype'] in ('cfdmesh',)"),
("import cells","C27",V,'np.array(hgroup["nodes"])','np.array(hgroup["points"])'),
("dim nodes","C27",V,'Dimensions="{np.prod(self._grid.points.shape)}"','Dimensions="{self._grid.points.shape[0]}"'),
("dim cells","C27",V,'Dimensions="{np.prod(cellco.shape)}"','Dimensions="{cellco.shape[0]}"'),
("elements","C27",V,'NumberOfElements="{cellco.shape[0]:d}"','NumberOfElements="{self.ncell:d}"'),
("break after first","C27",D,"                    datagroup.attrs[vname] = var\n","                    datagroup.attrs[vname] = var\n                    break\n") if False else ("time dataset","C27",D,"                if vname in self._property_names:\n                    datagroup.attrs[vname] = var\n                else:\n                    datagroup.create_dataset(vname, data=var, **options)","                if vname in self._property_names:\n                    datagroup.attrs[vname] = var\n                datagroup.create_dataset(vname, data=var, **options)"),
("skip 2d","C27",D,"                else:\n                    datagroup.create_dataset(vname, data=var, **options)","                elif var.ndim == 1:\n                    datagroup.create_dataset(vname, data=var, **options)"),
("attr on parent","C27",D,"datagroup.attrs[vname] = var","hgroup.attrs[vname] = var"),
("xdmf geometry first","C27",D,"            lines += geometry_content\n","            if i == 0:\n                lines += geometry_content\n"),
("r xdmf basename",None,L,"data.xdmf_content(filepath, geometry_content)","data.xdmf_content(os.path.basename(filepath), geometry_content)"),
("xdmf requested","C27",L,"            self._dumpxdmf(actual_filename, vtkmesh, self._data)","            self._dumpxdmf(os.path.splitext(filename)[0] + '.hdf', vtkmesh, self._data)"),
("version attr","C27",H,"attrs.get('data_version', 0","attrs.get('version', 0"),
("version value","C27",H,"{'data_version': version}","{'data_version': __version__}"),
("type attr","C27",H,"'cfd_datatype': datatype","'datatype': datatype"),
("scalar by width","C27",D,'                if len(var.shape) == 1:\n                    typ = "Scalar"\n                elif len(var.shape) == 2:','                if len(var.shape) <= 2:\n                    typ = "Scalar"\n                elif len(var.shape) == 3:'),
("mesh first type","C27",D,"celldict = dict(self._geoprop['mesh']._cell2node)","celldict = dict(list(dict(self._geoprop['mesh']._cell2node).items())[:1])"),
("mesh nodes T","C27",D,"self._geoprop['mesh'].nodescoord(ndarray=True), **options","self._geoprop['mesh'].nodescoord(ndarray=True).T, **options"),
("cells attr prisms","C27",V,"celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items()}","celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items() if cellco.shape[1] != 6}"),
("time start 0 only","C27",D,'<Time Value="{i}"/>','<Time Value="0"/>'),
# refactors
("r dump helper",None,[(D,"                else:\n                    datagroup.create_dataset(vname, data=var, **options)","                else:\n                    self._store(datagroup, vname, var, options)"),(D,"    def xdmf_content(self, filename, geometry_content):","    def _store(self, group, name, value, options):\n        group.create_dataset(name, data=value, **options)\n\n    def xdmf_content(self, filename, geometry_content):")]),
("r key",None,[(D,'hgroup.create_group(f"i{i:06}")','hgroup.create_group(self._key(i))'),(D,'/datalist/i{i:06}/{vname}','/datalist/{self._key(i)}/{vname}'),(D,"    def xdmf_content(self, filename, geometry_content):","    @staticmethod\n    def _key(i):\n        return 'i' + str(i).zfill(6)\n\n    def xdmf_content(self, filename, geometry_content):")]),
("r format",None,[(D,'hgroup.create_group(f"i{i:06}")','hgroup.create_group("i%06d" % i)')]),
("r append",None,D,'''                lines += ["</DataItem>"]
                lines += ["</Attribute>"]''','''                lines.extend(["</DataItem>", "</Attribute>"])'''),
("r direct",None,H,'''        hgroup.create_dataset("nodes", data=nodes, **options)
        hcells = hgroup.create_group("cells")''','''        hcells = hgroup.create_group("cells")
        self._h5file.create_dataset(f"{path}/nodes", data=nodes, **options)'''),
("r shape",None,V,'Dimensions="{np.prod(self._grid.points.shape)}"','Dimensions="{self._grid.points.size}"'),
("r dims2",None,V,'Dimensions="{np.prod(self._grid.points.shape)}"','Dimensions="{self._grid.points.shape[0]} {self._grid.points.shape[1]}"'),
("r join",None,D,'dim = " ".join(str(j) for j in var.shape)','dim = " ".join(map(str, var.shape))'),
("r loop continue",None,D,'''            for vname, var in data_wo_properties.items():
                if len''','''            for vname, var in datadict.items():
                if vname in self._property_names:
                    continue
                if len'''),
]
