"""(Re)writes /verif/properties.jsonl from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


IC3 = ["cfdtools/ic3/_ic3.py", "cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV3.py", "cfdtools/ic3/reader_legacy.py"]
MB = ["cfdtools/meshbase/_mesh.py", "cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_elements.py"]

prop("C01", "IC3 restart sections: recorded length equals header plus payload",
     "For every mesh and every set of fields, each section of a written IC3 v2/v3 restart file records as its length exactly the number of bytes of its header and of the payload that follows, and the file is the magic number and version, a chain of such sections and an end-of-file section. "
     "A reader that hops from section to section by this length therefore always lands on a section header.",
     ["inputs"], "every mesh size, mix of faces, number of boundary marks, field name, field type (integer or real, scalar/vector/tensor) and number of degrees of freedom",
     "Tests write a handful of small meshes with a few scalar fields; a wrong length for a vector, integer or multi-dof field never appears there.",
     IC3[:3], [("section header and its skip", "cfdtools/ic3/_ic3.py restartSectionHeader"), ("section writers", "cfdtools/ic3/writerV2.py, writerV3.py write_data")],
     ["writer.write_data"])
prop("C02", "IC3 restart: writer and reader agree on every section's layout",
     "Whatever the mesh and data, the legacy IC3 reader decodes every section that the v2 and v3 writers emit with the same header field positions, the same item counts, the same item type and size, and the same array shape with which it was encoded. "
     "Mesh counts, face-to-node and face-to-cell connectivities, coordinates and field values hence come back as they were written.",
     ["inputs"], "every mesh and set of fields written by the v2 or the v3 writer, both versions, either byte order",
     "Round-trip tests use hexahedral or pre-recorded files with cell scalars only; the agreement must hold for each section kind and all sizes.",
     IC3, [("header packing and parsing", "cfdtools/ic3/_ic3.py restartSectionHeader.write/readVar"), ("payload decoding", "cfdtools/ic3/reader_legacy.py read_data")],
     ["reader.read_data", "writer.write_data"])
prop("C03", "IC3 restart: fields keep their location, kind and name",
     "Each node, face or cell field found in an IC3 v2/v3 restart file is exported by the reader in the data set of its own location under its own name, and each node or cell scalar or vector field and cell tensor field of a mesh given to the v2/v3 writer is written in a section of its own location, kind and name. "
     "This holds even when a mesh has as many nodes as cells or faces.",
     ["inputs"], "every combination of field location (node, face, cell), kind (scalar, vector, tensor, integer) and counts, including equal counts",
     "Tests hold only files whose node, face and cell counts differ and whose fields are cell scalars.",
     IC3, [("section identifiers", "cfdtools/ic3/_ic3.py ic3_restart_codes"), ("field dispatch", "cfdtools/ic3/reader_legacy.py read_data/export_mesh")])
prop("C04", "IC3 restart: one byte order per file, read as written",
     "All multi-byte values of an IC3 v2/v3 restart file are written with the byte order requested by the caller, and read with the byte order detected from the magic number at the beginning of the file. "
     "No value is packed or unpacked with another byte order or with native alignment padding.",
     ["inputs", "configurations"], "every requested byte order (native, little, big), every section",
     "Tests run on one host with the native order for nearly all files.",
     IC3, [("byte order prefix", "cfdtools/ic3/_ic3.py BinaryRead/BinaryWrite/struct_endian"), ("magic number detection", "cfdtools/ic3/_ic3.py _ReadRestartHeader")])
prop("C05", "IC3 restart: zones, partition and simulation state survive conversion",
     "Reading an IC3 v2/v3 restart file and writing it again keeps each boundary mark (name, kind, face range, periodic transform), the cell partition (number of parts and part of each cell) and the simulation state (step, time, time step, averaging weights). "
     "A written file always ends its marks with one mark of kind internal covering the faces after the last boundary face.",
     ["inputs"], "every file content: zone kinds, face ranges, partitions, state values including zero",
     "Conversion tests compare sizes only or compare one file whose state is trivial.",
     IC3 + ["cfdtools/meshbase/_mesh.py"], [("mark sections", "FA_ZONE in writerV2.py and reader_legacy.py"), ("state sections", "I0/D0 in writerV2.py and reader_legacy.py")])
prop("C06", "IC3 v4: reader and writer use the same HDF5 schema",
     "Every HDF5 attribute, group and dataset that the IC3 v4 reader requires is written by the IC3 v4 writer under the same path with the same meaning, for the mesh file and for the solution file, and everything the writer stores about boundaries, conservative variables and statistics is recovered by the reader.",
     ["inputs"], "every mesh with boundary and periodic marks and every subset of the supported variables",
     "The tests exercise two files with one fixed set of variables.",
     ["cfdtools/ic3/readerV4.py", "cfdtools/ic3/writerV4.py"], [("schema", "readerV4.py, writerV4.py")])
prop("C07", "Element tables are complete and mutually consistent",
     "Each declared element type has one node count; each face listed for an element uses that element's node indices without repetition, is of a face type whose node count it has, and every edge of a volume element belongs to exactly two of its faces with opposite directions; all elements of a table orient their faces to the same side. "
     "All format codes and name tables map to declared types, the tables of the different file formats agree for the same element, and the extrusion of an element is an element with twice its nodes.",
     ["inputs"], "every element type declared by the package and every table that maps from or to an element type",
     "Tests use hexahedra, quadrangles and triangles, so entries of prisms, pyramids and tetrahedra are not exercised.",
     ["cfdtools/meshbase/_elements.py", "cfdtools/gmsh/_gmsh.py", "cfdtools/cgns/cgns.py", "cfdtools/vtk/_vtk.py"],
     [("tables", "cfdtools/meshbase/_elements.py"), ("format maps", "_gmsh.py, cgns.py, _vtk.py")])
prop("C08", "One-based node numbers become zero-based exactly once",
     "Node numbers read from GMSH and CGNS files, which start at one, are converted to zero-based numbers exactly once wherever they end up in an exported mesh: cell connectivity and boundary marks alike.",
     ["inputs"], "every mesh file, every element type, every boundary section",
     "Tests check counts and a few boundary names, not numbers of each section.",
     ["cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py"], [("index shift", "gmsh/reader.py read_data/export_mesh; cgns/cgns.py read_data/export_mesh")])
prop("C09", "Face tables: faces, cells and marks stay in one numbering",
     "When internal and boundary faces are merged or boundary faces are renumbered, faces and their neighbour cells are placed in the same order, so that row i of the face-to-cell table is always face i of the face-to-node table, boundary faces come first, and marks designate the same faces before and after. "
     "Indices of merged tables are shifted by the total number of elements of the preceding tables.",
     ["inputs"], "every mesh, mixed face types included, and every set of marks",
     "Tests use one face type per mesh, and compare face counts.",
     MB, [("merge", "importfrom_merge, export_mixedfaces"), ("renumbering", "reindex_boundaryfaces")])
prop("C10", "Extrusion builds exact layers of nodes, cells and marks",
     "Extruding a surface mesh over n planes gives n copies of the nodes, the i-th displaced by the i-th offset along the direction; n-1 layers of cells where layer i joins the nodes of planes i and i+1 and is numbered after layer i-1; and each mark is repeated on the n planes. "
     "The first and last planes are marked as the two new boundaries.",
     ["inputs"], "every surface mesh (several element types), number of planes and offsets",
     "Tests extrude a few meshes and check counts.",
     MB, [("extrusion", "Mesh.export_extruded, elem_connectivity.extrude")])
prop("C11", "Cube meshes number nodes, cells and marks consistently",
     "For all sizes nx, ny, nz, the cube generator numbers node (i,j,k) uniquely with one formula used by coordinates, cells and marks, each cell joins its eight corner nodes in hexahedron order, and each of the six marks holds the nodes of its own side.",
     ["inputs"], "every nx, ny, nz >= 1",
     "Tests use a few sizes, and symmetric sizes hide exchanged directions.",
     ["cfdtools/meshbase/simple.py"], [("numbering", "Cube.nodeglobindex_ijk, elemglobindex_ijk, _elems, export_mesh")])
prop("C12", "Command-line conversions never overwrite an existing file",
     "Every command that converts or generates a mesh or data file writes it to a name for which the path was found free, adding a counter if needed, and that name is exactly the path given to the writer and returned to the caller.",
     ["inputs", "histories"], "every input name, output folder and set of existing files",
     "Tests run each command in folders where the output does not exist.",
     ["cfdtools/_cli.py", "cfdtools/api.py", "cfdtools/data.py", "cfdtools/vtk/_vtkList.py"], [("safe name", "api._files.find_safe_newfile"), ("callers", "_cli.write_generic, _cli.cfdwritecube, dumphdf")])
prop("C13", "Requests are validated before an output file is truncated",
     "A writing request that is refused (inconsistent data, unsupported mesh, unknown mode or data type, missing version) is refused before the output file is opened for writing, so an existing file keeps its content.",
     ["inputs", "fault_sequences"], "every refused request",
     "Tests check that an error is raised, not what is left of the file.",
     ["cfdtools/ic3/writerV2.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/data.py", "cfdtools/vtk/_vtkList.py"], [("checks before opening", "writer.write_data, h5File.open, dumphdf")])
prop("C14", "Every declared command-line option takes effect",
     "Each option that a command declares and that concerns what it does is used by this command or by what it calls with the parsed values: data removal per location, extrusion, scaling (of the mesh that is written), output folder, format, cube sizes, integrity check, map, axis, data and colour options. No attribute of the parsed arguments is read that the command does not declare.",
     ["inputs", "configurations"], "every command and every option",
     "Tests call each command with a few options.",
     ["cfdtools/_cli.py", "cfdtools/probes/plot.py"], [("options", "cli_argparser and commands")])
prop("C15", "All registered readers and writers share one interface",
     "Each format registered for reading is constructed from a file name (with an optional integrity flag), offers data reading, mesh export, and the number of cells after reading; each format registered for writing is constructed from a mesh and offers writing to a file name. The command-line tools only rely on that interface.",
     ["configurations", "programs"], "every registered format and every console command",
     "Tests exercise formats through different entry points, not each pair of command and format.",
     ["cfdtools/api.py", "cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/readerV4.py", "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/vtk/_vtk.py"],
     [("registry", "api.fileformat_reader, api.fileformat_writer")])
prop("C16", "Every module imports in any order and console commands exist",
     "Each module of the package can be imported first in a fresh interpreter, without optional packages where these are declared optional, and every console command declared by the project resolves to a function of the package.",
     ["histories", "configurations"], "every import order and presence or absence of optional packages",
     "Test sessions import modules in one order with all packages installed.",
     ["pyproject.toml", "cfdtools/__init__.py", "cfdtools/data.py", "cfdtools/vtk/_vtk.py"], [("imports", "all modules"), ("[project.scripts]", "pyproject.toml")])
prop("C17", "Zero is a value: optional arguments are tested against None",
     "An optional numeric or array argument of the public interface that is given as zero (or as an array) is honoured exactly like any other value: time stamps, node coordinates, index bounds, offsets and tags are never dropped because they are zero or falsy.",
     ["inputs"], "every value of every optional argument",
     "Tests give non-zero values.",
     ["cfdtools/data.py", "cfdtools/meshbase/_mesh.py", "cfdtools/meshbase/_connectivity.py", "cfdtools/api.py"], [("None tests", "functions with optional arguments")])
prop("C18", "Arguments given by the caller are not modified",
     "Functions of the public interface that build a new object or store data (data sets, index lists, connectivities, extrusion, spectra, readers) do not modify the lists, dictionaries, arrays and meshes received as arguments, unless modifying the receiver is their purpose.",
     ["inputs", "histories"], "every argument and every later use of it by the caller",
     "Tests do not look at arguments after the call.",
     ["cfdtools/data.py"] + MB, [("copies", "add_elems, add_datalist, export_extruded, dataSet_spectrum")])
prop("C19", "Timer follows its start, pause and stop protocol",
     "A timer cannot be started while running nor paused or stopped while stopped: a TimerError is raised. Elapsed time is accumulated by each pause, a stopped timer can be started again, and every timer that the package starts is stopped on each normal path.",
     ["histories"], "every sequence of operations on a timer",
     "Tests try two or three sequences.",
     ["cfdtools/api.py", "cfdtools/_cli.py"], [("protocol", "api.Timer")])
prop("C20", "Files opened for writing are closed on every normal path",
     "Each file that the package opens for writing is closed before the writing function returns, whatever the data, so that the file is complete on disk when the function returns.",
     ["inputs", "fault_sequences"], "every writing function and path",
     "Tests read the file back after garbage collection has closed it.",
     ["cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV4.py", "cfdtools/data.py", "cfdtools/vtk/_vtkList.py", "cfdtools/hdf5/_hdf5.py"], [("with statements and close", "write_data, dumphdf")])
prop("C21", "Damaged or inconsistent input raises an error",
     "A truncated IC3 record, a missing compulsory section, a count that contradicts the header, inconsistent boundary marks, an unknown face type, an unsupported format, or VTK files whose meshes do not match end in an exception, never in silently wrong data. Errors are not swallowed by catch-all handlers.",
     ["fault_sequences", "inputs"], "every truncation point and every inconsistent input",
     "Tests feed valid files, with very few error cases.",
     IC3 + ["cfdtools/meshbase/_mesh.py", "cfdtools/vtk/_vtkList.py", "cfdtools/gmsh/reader.py"], [("error_stop and exceptions", "api.error_stop callers")])
prop("C22", "Derived flow variables are computed from their own dependencies",
     "Each derived probe variable is computed by a formula that uses exactly the variables declared as its dependencies, dependencies end in primitive variables without cycle, and asking for a variable reads or computes everything it needs first and is refused when an input is missing. "
     "Formulas are the perfect-gas definitions (ratio 1.4): U the velocity norm, Asound the speed of sound, Mach their ratio, S = ln(P/RHO^1.4)/0.4, INVX+ and INVX- = 5 Asound + U-X and 5 Asound - U-X. Each variable is read from the file 'prefix.variable', its values after the third column, the time from the second.",
     ["inputs"], "every declared variable and every set of available probe files",
     "Tests compute a few variables.",
     ["cfdtools/probes/data.py", "cfdtools/probes/plot.py"], [("variable tables", "probes/data.py (phydata)")])
prop("C23", "Mesh counters equal the size of the tables they count",
     "After any sequence of public operations on a mesh or a connectivity (adding, merging, removing, extruding, building faces), the reported numbers of nodes, cells, faces and elements equal the sizes of the stored tables.",
     ["histories"], "every sequence of operations",
     "Tests check counters after one operation.",
     MB, [("counters", "Mesh.nface/ncell/nnode, elem_connectivity.nelem, indexindirection.nelem, compressed_listofindex")])
prop("C24", "Reading or converting one file does not change the next",
     "Two readers, writers, meshes or data sets in the same process share no mutable state: the result of reading or converting a file does not depend on the files processed before.",
     ["histories"], "every sequence of files processed in one process",
     "Tests process files whose element tables agree and look at one result at a time.",
     ["cfdtools/api.py", "cfdtools/gmsh/reader.py"] + MB, [("instance state", "constructors, default arguments, module tables")])
prop("C25", "VTK lists: fields follow the reference mesh ordering",
     "When the files of a VTK list number cells differently, every field of each file is permuted with the permutation of that same file into the ordering of the first file before it is stored, and files whose cells do not match within tolerance are refused.",
     ["inputs"], "every list of files and every cell ordering",
     "Tests use one reordered pair of meshes.",
     ["cfdtools/vtk/_vtkList.py"], [("reordering", "vtkList.read")])
prop("C26", "IC3 writers order boundary faces and marks before writing",
     "Before anything is written, the IC3 writers build missing faces, turn node marks into face marks, mark unmarked boundary faces, and make every mark a contiguous range, in this order, for every mesh; and the written face tables are the ones after renumbering.",
     ["inputs"], "every mesh and set of marks: node or face based, complete or not, list or range",
     "Tests start from cubes and a few meshes with complete marks.",
     ["cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV4.py", "cfdtools/meshbase/_mesh.py"], [("preparation", "writer constructors")])
prop("C27", "HDF5 dumps: stored paths match what readers and XDMF use",
     "Every path, group and dataset name written in HDF5 dumps of meshes and data lists is the one used to read them back and the one referenced by the XDMF description, for each time index and each variable; all variables are dumped and each property is stored as an attribute.",
     ["inputs"], "every list of data sets and variables",
     "Tests dump one list and check that files exist.",
     ["cfdtools/data.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/vtk/_vtk.py", "cfdtools/vtk/_vtkList.py"], [("paths", "write_unsmesh, _dumphdfgroup, xdmf_content, importhdfgroup")])
prop("C28", "GMSH files are decoded according to their declared version",
     "The GMSH reader decodes nodes, elements, entities and physical names with the layout of the format version declared in the file, refuses versions and file types it does not support, and maps every element code to the element with the right number of nodes.",
     ["inputs"], "every supported file version and element code",
     "Tests read a few files of each version.",
     ["cfdtools/gmsh/reader.py", "cfdtools/gmsh/_gmsh.py"], [("version dispatch", "gmsh/reader.py read_data")])
prop("C29", "Faces built from cells are complete, unique and oriented",
     "Every face of every cell is built exactly once: a face shared by two cells is one internal face with both cells as neighbours, the first of which it points out of, any other face is one boundary face with its cell and -1, pointing out of it. Row i of the face-to-cell table belongs to face i; the mesh keeps both tables, and elements, their nodes and the compressed form are found by element number.",
     ["inputs", "histories"], "every set of cells of any types and numbering",
     "Tests count the faces of a few meshes.",
     ["cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_mesh.py"], [("faces from cells", "elem_connectivity.create_faces_from_elems, exportto_compressedindex, importfrom_compressedindex"), ("mesh tables", "Mesh.make_face_connectivity")])
prop("C30", "Node coordinates keep their axis and their node",
     "Coordinates given to a mesh by any setter come back from every accessor axis by axis and node by node; scale multiplies each axis by its own factor, morph gives the function x, y, z and takes its results as x, y, z; coordinates read from CGNS and VTK are those of the axis of that name and the points given to VTK and HDF5 files are the nodes in x, y, z order. Coordinates of a mesh just read are arrays.",
     ["inputs"], "all coordinates, factors and functions",
     "Tests look at bounding boxes of symmetric meshes.",
     ["cfdtools/meshbase/_mesh.py", "cfdtools/cgns/cgns.py", "cfdtools/vtk/_vtk.py", "cfdtools/data.py"], [("setters and accessors", "Mesh.set_nodescoord_nd, set_nodescoord_xyz, nodescoord"), ("transformations", "Mesh.scale, Mesh.morph"), ("files", "cgnszone.coords, vtkMesh.set_mesh, vtkMesh.export_mesh, DataSetList.dumphdf")])
prop("C31", "Spectra and spectrograms belong to their frequency and time axes",
     "The spectrum of a data set holds, for every variable asked for, the modulus of the discrete Fourier transform of exactly the samples of the window asked for, next to the frequencies of these samples and their time step. A spectrogram has one row for each slice of consecutive samples that fits in the signal, with the time of the middle of the slice and the frequency of each column, for any length of signal and window.",
     ["inputs"], "every signal, window and set of variables",
     "Tests transform one signal and look at the kind of the result.",
     ["cfdtools/data.py"], [("transforms", "DataSet.dataSet_spectrum, dataSet_spectrogram, dtstats")])
prop("C32", "Colour maps of probes show the probed data on their axes",
     "A probe file gives a variable the columns of its own file from the fourth on and the times its second column; a coordinate is one line of it. The time map draws that variable on these times and on the coordinate asked for, the frequency map draws in each row the modulus of the transform along time of every probe at the frequency of its bin, several lines of a coordinate are merged into their mean, and levels, colours and the name of the saved figure are those of the options and of the variable.",
     ["inputs"], "every probe file, axis, variable and option",
     "No test draws a map.",
     ["cfdtools/probes/plot.py", "cfdtools/probes/data.py", "cfdtools/plot.py"], [("maps", "plot_timemap, plot_freqmap, check_axis"), ("reading", "phydata.read_data"), ("colours", "normalizeCmap")])
prop("C33", "Polynomial bases are exact for their degree",
     "The weights of values of a basis of order n give back every polynomial of degree below n at any position, or at several, from its values at the nodes of the basis, and the weights of gradients its derivative, for both series, whatever was asked before from this or another basis; the weights of the nodes integrate every polynomial of degree below 2n over the reference interval.",
     ["inputs", "histories"], "every order, series, position and polynomial",
     "Tests check that weights sum to one and that both series agree.",
     ["cfdtools/utils/polybase.py", "cfdtools/utils/_dev.py"], [("weights", "poly1d.interp_weights, diff_weights, vdm, invvdm"), ("cache", "lazyprop")])

N = [
    ("N03", "Space averages (zone convolution) conserve the mean", "The zone convolution of a field conserves its volume average and is exact on constant fields.", ["cfdtools/vtk/_vtkList.py"], "zconvolution"),
    ("N04", "Conversion chains are numerically lossless", "Coordinates and field values are bit-identical after any chain of conversions between supported formats.", ["cfdtools/_cli.py"], "write_generic"),
]
for id, title, st, files, mech in N:
    prop(id, title, st, ["inputs"], "every signal, mesh or field", "Tests sample a few inputs with tolerances.", files, [(mech, files[0])])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
