CLI = "cfdtools/_cli.py"; PL = "cfdtools/probes/plot.py"
M = [
 ("c14 remove face->cell", "C14", CLI, "('face', parser.args().remove_face_data, cfdmesh.pop_facedata)", "('face', parser.args().remove_face_data, cfdmesh.pop_celldata)"),
 ("c14 remove node uses cell", "C14", CLI, "('node', parser.args().remove_node_data, ", "('node', parser.args().remove_cell_data, "),
 ("c14 drop face loc", "C14", CLI, "        ('face', parser.args().remove_face_data, cfdmesh.pop_facedata),\n", ""),
 ("c14 pop wrong dict", "C14", "cfdtools/meshbase/_mesh.py", "self._facedata.pop(", "self._celldata.pop("),
 ("c14 scale before", "C14", [(CLI, """    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
""", ""), (CLI, """    if parser.args().extrude:
        timer""", """    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
    if parser.args().extrude:
        timer""")]),
 ("c14 scale only in extrude", "C14", CLI, """    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
    if parser.args().info""", """        if parser.args().scale:
            cfdmesh.scale(parser.args().scale)
    if parser.args().info"""),
 ("c14 scale elif", "C14", CLI, "    if parser.args().scale:", "    elif parser.args().scale:"),
 ("c14 outpath ignored", "C14", CLI, """    if parser.args().outpath is None:
        file.remove_dir()
    else:
        file.change_dir(parser.args().outpath)""", "    file.remove_dir()"),
 ("c14 cube outpath", "C14", CLI, """    if parser.args().outpath is not None:
        file.change_dir(parser.args().outpath)
    if file""", "    if file"),
 ("c14 cube swapped", "C14", CLI, "simplemesh.Cube(nx, ny, nz)", "simplemesh.Cube(nx, nz, ny)"),
 ("c14 cube nz=ny", "C14", CLI, "parser.args().ny, parser.args().nz", "parser.args().ny, parser.args().ny"),
 ("c14 fmt", "C14", CLI, "        if self.args().fmt is None:", "        if self.args().fmt is None or Path(self._args.filename).suffix:"),
 ("c14 undeclared", "C14", CLI, "parser.args().remove_face_data", "parser.args().remove_faces_data"),
 ("c14 map choice", "C14", CLI, 'choices=["time", "freq"]', 'choices=["time", "frequency"]'),
 ("c14 levels", "C14", PL, "        levels=nlevels,\n        cmap=colmap,\n", "        cmap='turbo',\n"),
 ("c14 cmap", "C14", PL, "cmap, nlevels = kwargs['cmap'], kwargs['nlevels']", "cmap, nlevels = kwargs.get('colormap', 'turbo'), kwargs['nlevels']"),
 ("c14 axis dest", "C14", CLI, 'dest="nlevels"', 'dest="levels"'),
 ("c14 nx type", "C14", CLI, '''        dest="nx",
        default=10,
        type=int,''', '''        dest="nx",
        default=10,'''),
 ("c14 check flag", "C14", CLI, "parser._reader(str(inputfile), cIntegrity=parser.args('check'))", "parser._reader(str(inputfile))"),
 ("c14 info", "C14", CLI, "    if parser.args().info:\n        cfdmesh.printinfo()\n", ""),
 ("c14 extrude ignored", "C14", CLI, "        cfdmesh = cfdmesh.export_extruded(", "        cfdmesh.export_extruded("),
 ("c14 ref removal fn", None, CLI, """    for location, variables, pop_data in removals:
        for var in variables or []:
            if pop_data(var) is None:
                log.info(f"  cannot find {location} data {var}")
            else:
                log.info(f"  pop {location} data {var}")""", """    def discard(location, variables, pop_data):
        if not variables:
            return
        for var in variables:
            found = pop_data(var) is not None
            log.info(f"  pop {location} data {var}" if found else f"  cannot find {location} data {var}")

    for entry in removals:
        discard(*entry)"""),
 ("c14 ref three loops", None, CLI, """    removals = (
        ('node', parser.args().remove_node_data, cfdmesh.pop_nodedata),
        ('face', parser.args().remove_face_data, cfdmesh.pop_facedata),
        ('cell', parser.args().remove_cell_data, cfdmesh.pop_celldata),
    )
    for location, variables, pop_data in removals:
        for var in variables or []:
            if pop_data(var) is None:
                log.info(f"  cannot find {location} data {var}")
            else:
                log.info(f"  pop {location} data {var}")""", """    args = parser.argsdict()
    for location in ('node', 'face', 'cell'):
        pop_data = getattr(cfdmesh, f'pop_{location}data')
        for var in args[f'remove_{location}_data'] or []:
            if pop_data(var) is None:
                log.info(f"  cannot find {location} data {var}")
            else:
                log.info(f"  pop {location} data {var}")"""),
 ("c14 ref args var", None, CLI, """    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
    if parser.args().info""", """    factors = parser.args('scale')
    if factors is not None:
        cfdmesh.scale(factors)
    if parser.args().info"""),
 ("c14 ref extrude helper", None, [(CLI, """    if parser.args().extrude:
        timer.start()
        nz = parser.args().extrude
        log.info(f"> extrusion along nz={nz} cells, {nz*ncell} total cells")
        cfdmesh = cfdmesh.export_extruded(extrude=np.linspace(0.0, 1.0, nz + 1, endpoint=True))
        timer.stop(nelem=nz * ncell)
    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
""", "    cfdmesh = _transform(cfdmesh, parser.args(), timer, ncell)\n"), (CLI, "def write_generic(", '''def _transform(cfdmesh, args, timer, ncell):
    if args.extrude:
        timer.start()
        nz = args.extrude
        cfdmesh = cfdmesh.export_extruded(extrude=np.linspace(0.0, 1.0, nz + 1, endpoint=True))
        timer.stop(nelem=nz * ncell)
    if args.scale:
        cfdmesh.scale(args.scale)
    return cfdmesh


def write_generic(''')]),
 ("c14 ref plot if", None, CLI, "    run_plot[parser.args().map](data, **parser.argsdict())", """    plotter = run_plot.get(parser.args().map)
    plotter(data, **parser.argsdict())"""),
 ("c14 ref plot if2", None, CLI, "    run_plot[parser.args().map](data, **parser.argsdict())", """    if parser.args().map == 'time':
        probeplot.plot_timemap(data, **vars(parser.args()))
    else:
        probeplot.plot_freqmap(data, **vars(parser.args()))"""),
 ("c14 ref cube dict", None, CLI, "    cube = simplemesh.Cube(nx, ny, nz)", "    cube = simplemesh.Cube(nz=nz, ny=ny, nx=nx)"),
 ("c14 ref fmt", None, CLI, """            thisfmt = [self.args().fmt]
        if len(thisfmt) == 0:
            api.error_stop("no extension found")
        elif len(thisfmt) > 1:
            api.error_stop("too many extensions found\\n" "must specify format with --fmt")
        self._fileformat = thisfmt[0]""", """            thisfmt = [self.args().fmt]
        if not thisfmt:
            api.error_stop("no extension found")
        if len(thisfmt) > 1:
            api.error_stop("too many extensions found\\n" "must specify format with --fmt")
        (self._fileformat,) = thisfmt"""),
]
