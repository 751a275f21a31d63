import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
mg="meshiphi/mesh_generation/"; dl="meshiphi/dataloaders/"
add("P01","Mesh cells tile the region exactly, whatever is split",
"For every valid region, initial cell size and data, the cells of a built mesh cover the configured region exactly once - no gap, no overlap, nothing outside it - including regions that cross the antimeridian and regions that span the globe. Every cell is an initial grid cell or one of the four equal quarters of such a cell, repeatedly, quartered at most the configured number of times; cell ids are unique. The same holds after every step of any sequence of individual cell splits.",
["inputs","histories","configurations"],"all regions (regional, antimeridian-crossing, global) with sizes that divide them, all data, all split sequences",
"The tests compare a handful of stored meshes and split one cell of one small regional grid; they never cross the antimeridian, split a global mesh, or run split sequences.",
[mg+"mesh_builder.py",mg+"cellbox.py",mg+"boundary.py",mg+"aggregated_cellbox.py"],
[("initial grid","mesh_builder.py initialize_cellboxes"),("quartering","cellbox.py create_splitted_cell_boxes"),("replace parent by children","mesh_builder.py split_and_replace")],"cells of the mesh (geometry, centre, half-widths, id)")
add("P02","Neighbour graph equals geometric adjacency in all eight directions",
"After a build, and after every step of any sequence of cell splits on a mesh under construction, the neighbour graph lists for each cell and each of the eight directions exactly the cells that touch it there: edge neighbours share a stretch of that edge, corner neighbours share only that corner. No neighbour is missing, spurious, duplicated or left over from a replaced cell, and adjacency is symmetric with opposite directions. Meshes crossing the antimeridian, and global meshes of two or more columns, are adjacent across the antimeridian in the same way.",
["histories","inputs","configurations"],"all split histories over regional, antimeridian-crossing and global grids",
"The graph is maintained incrementally; the tests check single updates on a small regional grid and compare stored meshes built in one order.",
[mg+"neighbour_graph.py",mg+"mesh_builder.py"],
[("initial graph","neighbour_graph.py initialise_map"),("global seam","mesh_builder.py check_global_mesh"),("incremental update","mesh_builder.py split_and_replace, neighbour_graph.py update_neighbours/update_corner_neighbours/get_neighbour_case")],"neighbour_graph of the mesh")
add("P03","Cells are refined exactly where the scalar splitting conditions demand",
"Data sources are taken in configuration order; at the turn of a source that has splitting conditions, every cell above the depth limit whose conditions so far (this source's and all earlier sources') include at least one 'heterogeneous' and no 'locked' verdict is quartered, its quarters being judged in the same turn, and no other cell is ever quartered. A condition on point or gridded scalar data abstains when the cell holds fewer points than the configured minimum; otherwise, with f the fraction of its non-missing points strictly above the threshold (0 if there are none), it abstains if f is at most the lower bound, locks (or abstains when locking is off) if f is at least the upper bound, and is heterogeneous otherwise.",
["inputs","configurations"],"all scalar data sets, thresholds, bounds, locks, minimum counts, depths, and combinations of sources",
"The stored meshes sample a few parameter settings and smooth fields; boundary cases of the rule and interactions of several sources are not reached.",
[mg+"mesh_builder.py",mg+"cellbox.py",dl+"scalar/abstract_scalar.py"],
[("pass over sources","mesh_builder.py split_to_depth"),("combination of verdicts","cellbox.py should_split"),("single verdict","abstract_scalar.py get_hom_condition")],"set of cells of the built mesh")
add("P04","Every data point counts towards exactly one cell",
"Every point or grid node of a scalar or vector data source that lies inside the region (south and west edges excluded, north and east edges included) and inside the configured period (both end dates included) contributes to exactly one cell of the built mesh, the one containing it under the same edge rule; points outside the region or the period contribute to none. This holds at every refinement depth, on edges shared by cells, and for regions and cells that cross the antimeridian.",
["inputs","configurations"],"all point positions including cell edges and corners, all dates, all regions and refinements",
"Tests aggregate smooth dense fields where a point lost or counted twice at an edge does not change the stored rounded values.",
[dl+"scalar/abstract_scalar.py",dl+"vector/abstract_vector.py",mg+"cellbox.py",mg+"mesh_builder.py"],
[("trimming to bounds","abstract_scalar.py/abstract_vector.py trim_datapoints"),("subset inheritance","cellbox.py split, mesh_builder.py initialize_meta_data_subsets")],"COUNT / MIN / MAX aggregates per cell")
add("P05","Scalar cell values are the configured aggregate of the cell's data",
"For every scalar data source the value stored in a cell is the configured aggregate - MIN, MAX, MEAN, MEDIAN, STD or COUNT, mean by default - of exactly the non-missing values of the data points inside the cell (COUNT: the number of points, data without missing values). STD divides by n-1 for point tables and by n for gridded data. The value does not depend on how the cell came about, on the order of the data or on the other sources.",
["inputs","configurations"],"all values, missing-value patterns and aggregate types, tabular and gridded",
"Stored meshes use almost only MEAN on dense synthetic fields without missing values.",
[dl+"scalar/abstract_scalar.py",mg+"cellbox.py"],
[("aggregation","abstract_scalar.py get_value"),("per-cell collection","cellbox.py aggregate")],"cell values in the mesh")
add("P06","Cells without data follow the fill policy of their source",
"If a source has no (non-missing) data in a cell, the cell gets the value chosen by the source's fill policy: 'parent' (the default) takes the aggregate over the nearest enclosing ancestor cell that has data and leaves the value missing (NaN) if none has; a number or numeric string is stored as that number; 'zero' stores 0; 'nan' stores NaN. This applies to scalar sources and to each component of vector sources, and cells that do have data are never filled. When several scalar sources supply the same variable, the first in configuration order with a non-missing (after filling) value in the cell determines it.",
["inputs","configurations"],"all sparse data sets, policies, depths and source orders",
"No test builds a mesh with an empty refined cell and checks the filled value; vector fills and numeric policies are untested.",
[mg+"cellbox.py",mg+"mesh_builder.py"],
[("fill","cellbox.py aggregate, check_vector_data"),("policy parsing","mesh_builder.py check_value_fill_type")],"cell values in the mesh")
add("P07","Vector cell values are component-consistent aggregates",
"For every vector data source the two stored components are the configured aggregate of exactly the vectors inside the cell: MEAN and STD component-wise over non-missing values (STD by n-1 for tables, by n for grids), MIN and MAX both components of one and the same complete vector, of least respectively greatest magnitude in the cell, and COUNT the number of vectors in both components. This is independent of how the data is distributed over input files.",
["inputs","configurations"],"all vector data, file partitions and aggregate types, tabular and gridded",
"Stored meshes only use MEAN on dense fields.",
[dl+"vector/abstract_vector.py",dl+"vector/vector_csv.py",mg+"cellbox.py"],
[("aggregation","abstract_vector.py get_value, add_mag_dir"),("file concatenation","vector_csv.py import_data")],"cell values in the mesh")
add("P08","Polygon look-up values and splits follow polygon geometry",
"For a look-up source of polygons with values (everything outside them is undefined, or the negation of a boolean value), a cell's MIN and MAX range over the polygons that touch the cell, MEAN and STD weight each polygon's value with the area it covers of the cell, MEDIAN is the area-weighted median, COUNT is the number of polygons touching the cell, and the result is missing if an undefined area touches the cell (COUNT excepted). With boundary splitting on, a cell above the depth limit is quartered exactly if the outline of some polygon passes through or touches it; with it off, never.",
["inputs","configurations"],"all polygon layouts and aggregate types",
"No test exercises look-up sources at all.",
[dl+"lut/abstract_lut.py",dl+"lut/lut_csv.py",dl+"lut/lut_geojson.py"],
[("aggregation","abstract_lut.py get_value"),("splitting","abstract_lut.py get_hom_condition"),("undefined area","lut_csv.py / lut_geojson.py import_data")],"cell values and cells of the mesh")
add("P09","Saving and loading a mesh loses nothing",
"Writing any mesh to its JSON form (dictionary or file) and loading it back yields a mesh with the same cells (id, geometry, centre, half-widths, values), the same neighbour graph and the same configuration; writing it again gives the same JSON. This holds for freshly built meshes, for meshes changed after loading (split, merged, updated), for cells that cross or touch the antimeridian, and for missing and infinite values.",
["histories","inputs"],"all meshes and all sequences of load, modify, save",
"Only one stored mesh is loaded by the tests, and its content is not compared.",
[mg+"environment_mesh.py",mg+"aggregated_cellbox.py",mg+"neighbour_graph.py",mg+"boundary.py"],
[("write","environment_mesh.py to_json/save, aggregated_cellbox.py to_json"),("read","environment_mesh.py load_from_json, aggregated_cellbox.py from_json")],"JSON documents")
add("P10","Splitting cells of a loaded mesh keeps it consistent",
"Splitting a cell of a loaded mesh replaces exactly that cell by its four equal quarters, which carry its values and new unique ids, leaves all other cells untouched, and keeps the neighbour graph exact in all eight directions, for every sequence of splits and also across the antimeridian. Splitting around given points splits exactly the cells that contain a point in their interior, repeatedly, until the cell is at the configured finest size in either axis; points outside the mesh or on cell edges change nothing.",
["histories","inputs"],"all loaded meshes, all split sequences, all point lists",
"No test splits a loaded mesh.",
[mg+"environment_mesh.py",mg+"neighbour_graph.py",mg+"boundary.py"],
[("split","environment_mesh.py split_and_replace, sim_split_cellbox"),("points","environment_mesh.py split_points, _split_loc")],"cells and neighbour graph of the loaded mesh")
add("P11","Merging a mesh into another replaces exactly the overlapped part",
"Merging a second mesh into a loaded mesh whose grid it is aligned with removes exactly the cells of the first lying inside the second's region and adds all cells of the second with their values under new unique ids; the remaining cells keep ids and values, and the resulting neighbour graph is exact in all eight directions, within and across the seam. Misaligned meshes are refused and change nothing; the second mesh itself is left unmodified, and both configurations are recorded. This also holds for repeated merges, after splits, and where regions touch or cross the antimeridian or span the globe (in three or more columns).",
["histories","inputs"],"all pairs and sequences of aligned meshes, all refinements of both",
"One command line test merges a mesh and only checks that it runs.",
[mg+"environment_mesh.py",mg+"neighbour_graph.py"],
[("merge","environment_mesh.py merge_mesh, validate_merge_compatibility"),("seam","environment_mesh.py tie_*_cellbox_ng, get_cellboxes_*_of_bounds"),("renumbering","environment_mesh.py/neighbour_graph.py increment_ids")],"cells and neighbour graph of the merged mesh")
add("P12","Point queries return the cell that contains the point",
"Asking a mesh for the cell at a point returns the id of the one cell whose interior contains the point, for every point strictly inside a cell, also in cells that cross the antimeridian and after splits and merges; for points outside the mesh and on cell edges it reports that there is none, and the inside/outside query agrees.",
["inputs","histories"],"all meshes and all points not on the antimeridian",
"No test queries points.",
[mg+"environment_mesh.py",mg+"aggregated_cellbox.py",mg+"boundary.py"],
[("query","environment_mesh.py query_index, query_inside_mesh"),("containment","aggregated_cellbox.py contains_point")],"return values and exceptions of the queries")
add("P13","Boundary geometry and dates are computed consistently",
"For every valid latitude/longitude box, including boxes that cross or touch the antimeridian, width, height, centre, half-widths, corners, polygon text and its parsing back, and the four quarters all describe the same box: the polygon covers exactly the box, the quarters partition it equally, and the centre lies in its middle with longitudes in [-180, 180]. Dates are accepted as YYYY-MM-DD, TODAY, TODAY+n or TODAY-n (any case and spacing) and denote the corresponding day; other dates, reversed time ranges, reversed latitudes and longitudes outside [-180, 180] are refused.",
["inputs"],"all boxes and date expressions",
"Five fixed boundaries are tested; polygons of boxes that begin or end at the antimeridian and quarters past it are not.",
[mg+"boundary.py"],
[("geometry","boundary.py get_width, getcx, to_polygon, from_poly_string, split"),("dates","boundary.py parse_datetime, validate_bounds")],"results of the public methods")
add("P14","Only well-formed configurations are accepted",
"A mesh configuration is accepted for building if and only if it has the required sections and fields with the right types and no unknown region or splitting fields, its dates are YYYY-MM-DD or TODAY with an optional whole-day offset and not reversed, latitudes are not reversed, longitudes lie in [-180, 180], and the initial cell width and height divide the region's extent exactly - the extent being measured eastwards, also across the antimeridian and around the globe. Data loaders that are unknown or lack a required parameter are refused; loader names are case-insensitive.",
["configurations"],"all configurations",
"Tests use valid configurations only.",
["meshiphi/config_validation/config_validator.py","meshiphi/config_validation/mesh_schema.py",mg+"mesh_builder.py",dl+"factory.py"],
[("schema","mesh_schema.py"),("dates and sizes","config_validator.py validate_mesh_config, mesh_builder.py validate_bounds"),("loaders","factory.py get_dataloader")],"acceptance or error")
add("P15","GeoJSON export shows every cell once with its geometry and values",
"Exporting a mesh as GeoJSON gives exactly one feature per cell, with the cell's geometry, id and data values (all of them, or only the requested one), where missing and infinite values appear as null, false as null, true as 1, and lists of numbers as their mean. Saving to a file writes exactly what the export returns, JSON and GeoJSON alike, for any spelling of the format name in upper or lower case; an unsupported format writes nothing. Exporting does not change the mesh.",
["inputs","configurations"],"all meshes, value types and export parameters",
"Export is only smoke-tested through the command line.",
[mg+"environment_mesh.py","meshiphi/cli.py"],
[("export","environment_mesh.py to_geojson, save")],"exported documents and files")
add("P16","The same input always gives the same mesh",
"Building is a function of configuration and data: rebuilding from the same configuration, from the configuration stored inside the produced mesh, or through the command line gives the same cells, ids, values and neighbour graph. So does supplying the same data as one file, several files, or a folder, and permuting the rows of a table.",
["configurations","inputs","histories"],"all configurations and arrangements of the data",
"Regression tests rebuild stored meshes once, from one arrangement of the data.",
[mg+"mesh_builder.py",dl+"factory.py",dl+"scalar/scalar_csv.py","meshiphi/cli.py"],
[("configuration written back","mesh_builder.py __init__, initialize_meta_data"),("file translation","factory.py translate_file_input"),("command line","cli.py create_mesh_cli")],"mesh JSON")
add("P17","Data added to an initial mesh is treated like configured data",
"Adding a data source programmatically to a freshly initialised mesh builder, before building, gives the same cells, values and neighbour graph as listing the same data last in the configuration's data sources: its points are assigned to cells, its splitting conditions refine them, its aggregate and fill policy apply in the same way. Sources already present keep their values.",
["inputs","configurations"],"all data sets, conditions, aggregates and fill policies",
"No test adds a data loader to a mesh.",
[mg+"mesh_builder.py",mg+"metadata.py"],
[("adding","mesh_builder.py add_dataloader")],"mesh JSON")
add("P18","Downsampling replaces blocks of grid nodes by their aggregate",
"With downsampling factors (a, b), gridded data inside the region is replaced, before anything else is derived from it, by one value per block of a longitudes by b latitudes counted from the south-west, placed at the block's mean position and holding the configured aggregate (MIN, MAX, MEAN; COUNT keeps the first node) of the block, incomplete blocks at the north and east edges using the nodes they have. Factors (1, 1) and tabular data are left unchanged.",
["inputs","configurations"],"all grids, factors and aggregates",
"No test uses downsampling with factors that do not divide the grid or differ between axes.",
[dl+"scalar/abstract_scalar.py",dl+"vector/abstract_vector.py"],
[("downsampling","abstract_scalar.py/abstract_vector.py downsample")],"cell values and cells of the mesh")
add("P19","Vector splitting follows curl and deviation of the field",
"A curl condition on vector data judges a cell by the finite-difference curl (dFy/dx - dFx/dy in grid steps) at the cell's data points, a deviation condition by each vector's distance from the cell's mean vector; the fraction of points whose value exceeds the threshold is compared with the lower and upper bounds exactly as for scalar conditions, and a cell with fewer points than the minimum, or a single row or column for curl, abstains. Tabular and gridded data holding the same field split identically.",
["inputs","configurations"],"all fields, thresholds, bounds and cells",
"No stored mesh uses vector splitting conditions.",
[dl+"vector/abstract_vector.py",mg+"cellbox.py"],
[("verdict","abstract_vector.py get_hom_condition"),("curl","abstract_vector.py calc_curl, _create_vector_meshgrid"),("deviation","abstract_vector.py calc_dmag")],"set of cells of the built mesh")
add("P20","Dataset readers deliver the file's data in the common convention",
"Each supported data set reader delivers every present node of its files that lies inside the region and period, once and nothing else, at its true position - longitude in [-180, 180] whichever longitude convention the data set is published in, reprojected where it is published on a projected grid - under the documented variable name and with the documented unit conversion. Several files give the union of their nodes. Data sets stored as one file per date are read for the dates of the period only, forecasts from the latest one issued before the period.",
["inputs","configurations"],"all file contents in each supported format",
"The readers of real data sets are not run by any test.",
[dl+"scalar/gebco.py",dl+"scalar/bsose_sea_ice.py",dl+"scalar/bsose_depth.py",dl+"scalar/modis.py",dl+"scalar/amsr.py",dl+"scalar/icenet.py",dl+"scalar/era5_sig_wave_height.py",dl+"scalar/ecmwf_sig_wave_height.py",dl+"vector/era5_wind.py",dl+"vector/sose.py",dl+"vector/duacs_current.py",dl+"factory.py"],
[("readers","import_data of each loader"),("reprojection","abstract_scalar.py/abstract_vector.py reproject"),("selection","factory.py get_dataloader, translate_file_input")],"loader data")
add("P21","Built-in tables, shapes and random fields have their documented values",
"The built-in sea ice density and thickness look-ups give every cell, by default, the mean of the seasonal table values weighted by the area of each hemisphere or sector in the cell and by the days of the period falling in each season of that hemisphere (MIN and MAX: the extreme values that occur), also across the antimeridian. An abstract shape (circle, rectangle, gradient, checkerboard; scalar or vector) laid over a region that does not cross the antimeridian gives nx by ny evenly spaced nodes holding exactly the parametrised pattern. Random fields are reproducible for a given seed and stay within their configured range.",
["inputs","configurations"],"all cells, periods, shape parameters and seeds",
"The built-in tables are not run by any test, and shapes only with one parameter set each.",
[dl+"lut/density.py",dl+"lut/thickness.py",dl+"scalar/shape.py",dl+"vector/vector_shape.py",dl+"scalar/scalar_grf.py",dl+"vector/vector_grf.py"],
[("tables","density.py / thickness.py import_data, abstract_lut.py get_value"),("shapes","import_data of the shape loaders"),("fields","import_data of the random field loaders")],"cell values, loader data")
add("P22","A GeoTIFF export shows at every pixel the cell below it",
"Exporting a variable of a mesh as GeoTIFF, directly or through the command line, gives an image of exactly the requested number of lines and columns, georeferenced to the mesh's region, also across the antimeridian (continued past 180 degrees); each pixel has the colour that the given colour table assigns to the value of the cell containing the pixel's centre (lists of numbers: their mean), and the table's 'nan' colour where that value is missing or infinite or no cell lies there. Without a colour table equal values get equal colours and missing ones red; with another projection the image is the same picture reprojected (to within one pixel). Exporting leaves the mesh unchanged and no other files behind.",
["inputs","configurations","histories"],"all meshes, resolutions and values",
"The export is only tested with one square image of one mesh.",
[mg+"environment_mesh.py","meshiphi/cli.py"],
[("image","environment_mesh.py to_tif, save"),("command line","cli.py export_mesh_cli")],"pixels, size, georeferencing and projection of the image; files in the folder")
add("P23","Vessel, route and waypoint inputs are accepted exactly when well-formed",
"A vessel file is accepted if and only if it has the vessel type and the unit as texts, a maximum speed and a minimum depth as numbers that are not negative, and a maximum ice concentration from 0 to 100. A route file is accepted if and only if it has the objective function as a text, the path variables as a list of texts, exactly two vector names, the three switches as booleans and the time unit days, hours or seconds, and its optional smoothing settings are numbers (the iteration limit a whole one); a waypoint table if and only if it has the columns Name, Lat, Long, Source and Destination, at least one source and one destination marked X, and numeric coordinates throughout. Further fields and columns are ignored, files and objects in memory are judged alike, and the input is not modified.",
["inputs"],"all documents and tables",
"No test runs these validators.",
["meshiphi/config_validation/config_validator.py","meshiphi/config_validation/vessel_schema.py","meshiphi/config_validation/route_schema.py","meshiphi/config_validation/waypoints_schema.py"],
[("vessels","config_validator.py validate_vessel_config, vessel_schema.py"),("routes","config_validator.py validate_route_config, route_schema.py"),("waypoints","config_validator.py validate_waypoints")],"acceptance or refusal")
add("P24","Comparing two meshes reports exactly the cells that differ",
"Comparing two mesh files reports, as rows or ids, each once: as new, the cells of the second that the first does not have; as changed, the cells of both whose values differ in an attribute both meshes know, numbers and lists of numbers being compared to four significant digits and missing values being equal to each other only; as differing in attributes, the cells of both that do not carry the same attributes; and as rewired, the cells of the second whose id is known to both meshes and whose neighbours in some direction differ, in whatever order they are listed. Nothing else is reported, a mesh never differs from itself, and comparing changes neither mesh.",
["inputs"],"all pairs of mesh files with uniformly typed attributes",
"The comparison decides whether regression tests pass, but is itself run by no unit test.",
["meshiphi/mesh_validation/mesh_comparator.py","meshiphi/utils.py"],
[("comparisons","mesh_comparator.py compare_*"),("four digits","utils.py round_to_sigfig")],"reported cells")
add("P25","Validating a mesh measures its distance to the data of each cell",
"Validating a mesh against all source data gives the mean and the root mean square of the differences (for vectors: of the lengths of the difference vectors) between every data point inside the mesh and the value of the cell it counts towards, every point once (south and west edges of a cell excluded), also across the antimeridian, missing values being left out. Validating by samples compares, for each sampled square of the mesh's region, every data point in it with the value of the cell it counts towards, so that over random samples the result is the root mean square of such differences and is zero for a mesh holding its data exactly.",
["inputs","configurations"],"all meshes and data sets, points on edges and across the antimeridian included",
"One stored mesh is validated with random samples by a test that only bounds the result, and not reliably.",
["meshiphi/mesh_validation/full_mesh_validator.py","meshiphi/mesh_validation/mesh_validator.py","meshiphi/mesh_validation/sampler.py"],
[("all data","full_mesh_validator.py validate_scalar, validate_vector, slice_data"),("samples","mesh_validator.py validate_mesh, get_value_from_data, get_values_from_mesh; sampler.py")],"validation results")
add("P26","A plot of a mesh shows every cell at its place in its colours",
"Exporting a mesh as PNG, directly, through the command line or with the plotter itself, draws the mesh's region in its proportions, going east from its western edge, also across the antimeridian, with every cell at its place. A cell has the colour that the last requested colour map assigns to the position of its value between the least and the greatest value of the mesh (a value that is the same everywhere: one colour), or, on top of that, the colour of the last requested flag that is true for it; where its value is missing or infinite or it does not have the variable it is left unpainted in that layer. Plots begun side by side do not mix, and exporting leaves the mesh unchanged and no other files behind.",
["inputs","configurations","histories"],"all meshes, values and choices of colour maps and flags",
"No test draws a plot.",
[mg+"environment_mesh.py","meshiphi/mesh_plotting/mesh_plotter.py","meshiphi/cli.py"],
[("layers","environment_mesh.py to_png, save"),("drawing","mesh_plotter.py plot_cmap, plot_bool, save"),("command line","cli.py export_mesh_cli")],"pixels and proportions of the image; files in the folder")
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,sch); 
    n=p['statement'].count('. ')+1
    if n>3: print(p['id'],n)
print(len(P))
