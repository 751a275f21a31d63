From 0b83f2e5a570eede45a4eee099b99b411128a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:48 +0000
Subject: [PATCH 01/65] fix: keep, not drop, tabular datapoints inside bounds
 that cross the antimeridian

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..87fce45 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6587775 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From 3c691de74842e0e5574bcd5cce789727926e82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:45 +0000
Subject: [PATCH 02/65] fix: recognise adjacency across the antimeridian when
 cells are split

---
 meshiphi/mesh_generation/neighbour_graph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..3c30ca3 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -230,6 +230,11 @@ class NeighbourGraph:
         lat_a = bounds_a.get_lat_min()
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
+        # Express long_b on the same side of the antimeridian as long_a
+        if long_b + 360 <= long_a + bounds_a.get_width():
+            long_b += 360
+        elif long_b + bounds_b.get_width() - 360 >= long_a:
+            long_b -= 360
 
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
@@ -313,6 +318,11 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
+        # Express long_b on the same side of the antimeridian as long_a
+        if long_b + 360 <= long_a + cellbox_a.get_bounds().get_width():
+            long_b += 360
+        elif long_b + cellbox_b.get_bounds().get_width() - 360 >= long_a:
+            long_b -= 360
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-- 
2.43.0


From f6ef708104a41363d526eb74210beed5910f615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:45 +0000
Subject: [PATCH 03/65] fix: reject cell widths that do not divide a
 full-circle region

---
 meshiphi/config_validation/config_validator.py | 6 +++++-
 meshiphi/mesh_generation/mesh_builder.py       | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..9be5fdb 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,11 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        extent = bound_max - bound_min
+        # Bounds that cross the antimeridian have bound_max < bound_min
+        if extent < 0:
+            extent += 360
+        assert((extent/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..c663dda 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,7 @@ class MeshBuilder:
         
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert bounds.get_width() % cell_width == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From c357032343c880ccccb2e1194d4d3e184e181139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 04/65] fix: keep the id stored with cell data in step when ids
 are incremented

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..a0e214d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -758,7 +758,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 07e7c4c540bf46f8200f77d2452c1c306053e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 05/65] fix: merge_mesh no longer modifies the mesh given to it

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index a0e214d..0fdb51e 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # the given mesh is renumbered and re-linked below, so work on a copy
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From 8db21385490bd6d146309e67f5901c3d5f043d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 06/65] fix: reject out of range indices in update_cellbox

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 0fdb51e..41e16aa 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1465,7 +1465,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From 19dfd0d1ec8c5136ac80bdb68c6bebc38e07fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 07/65] fix: split_points no longer fails when a split puts a
 point on a cell edge

---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 41e16aa..29875c3 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -191,9 +191,9 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # A split can leave the point on the edge between new cellboxes
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From 906fa5b61bad83a9821cc46be0a3576c031145e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 08/65] fix: find cells around merged bounds that touch or
 cross the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 23 +++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 29875c3..7209d70 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -590,8 +590,10 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if (cb_bounds.get_long_min() >= bounds.get_long_min() and 
-                cb_bounds.get_long_max() <= bounds.get_long_max() and 
+            # Distance east of the western edge, so that bounds may cross the antimeridian
+            long_offset = (cb_bounds.get_long_min() - bounds.get_long_min()) % 360
+
+            if (long_offset + cb_bounds.get_width() <= bounds.get_width() and
                 cb_bounds.get_lat_min() >= bounds.get_lat_min() and 
                 cb_bounds.get_lat_max() <= bounds.get_lat_max()):
             
@@ -615,9 +617,10 @@ class EnvironmentMesh:
         north_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
+            long_offset = (cellbox.get_bounds().get_long_min() - bounds.get_long_min()) % 360
             if (cellbox.get_bounds().get_lat_min() == bounds.get_lat_max() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                (long_offset <= bounds.get_width() or
+                 long_offset + cellbox.get_bounds().get_width() >= 360)):
             
                 north_cellboxes.append(cellbox)
             
@@ -628,9 +631,10 @@ class EnvironmentMesh:
         south_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
+            long_offset = (cellbox.get_bounds().get_long_min() - bounds.get_long_min()) % 360
             if (cellbox.get_bounds().get_lat_max() == bounds.get_lat_min() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                (long_offset <= bounds.get_width() or
+                 long_offset + cellbox.get_bounds().get_width() >= 360)):
             
                 south_cellboxes.append(cellbox)
             
@@ -641,7 +645,8 @@ class EnvironmentMesh:
         east_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_long_min() == bounds.get_long_max() and
+            long_offset = (cellbox.get_bounds().get_long_min() - bounds.get_long_min()) % 360
+            if (long_offset == bounds.get_width() and
                 cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                 cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
             
@@ -654,7 +659,9 @@ class EnvironmentMesh:
             west_cellboxes = []
     
             for cellbox in self.agg_cellboxes:
-                if (cellbox.get_bounds().get_long_max() == bounds.get_long_min() and
+                long_offset = (cellbox.get_bounds().get_long_min() - bounds.get_long_min()) % 360
+                if (long_offset >= bounds.get_width() and
+                    long_offset + cellbox.get_bounds().get_width() == 360 and
                     cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                     cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
                 
-- 
2.43.0


From 268cb72f3e7e8002f90ea5828f89670d6e45647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 09/65] fix: split boundaries whose middle lies past the
 antimeridian

---
 meshiphi/mesh_generation/boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..1f2f90d 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -415,6 +415,9 @@ class Boundary:
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
         long_mid = self.get_long_min() + (self.get_width() / 2)
+        # If the middle is past the antimeridian
+        if long_mid > 180: 
+            long_mid -= 360
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From 1c140b1b8388029c74a42a43ea4c151c3501f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 10/65] fix: fill missing vector components under their own
 names

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From be8b2e2b58e238614b5345e17925f6b65e2093fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 11/65] fix: honour 'zero' and numeric strings given as
 value_fill_types

---
 meshiphi/mesh_generation/mesh_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index c663dda..1a3215c 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -228,7 +228,11 @@ class MeshBuilder:
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-            if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
+            if data_source['params']['value_fill_types'] == "zero":
+                value_fill_type = 0.0
+            elif is_float (data_source  ['params']['value_fill_types']):
+                value_fill_type = float(data_source  ['params']['value_fill_types'])
+            elif data_source['params']['value_fill_types'] == "parent":
                 value_fill_type = data_source  ['params']['value_fill_types']
             else:
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
-- 
2.43.0


From 0c16dd64770297c2dfca9b301c0bc324fbc4a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 12/65] fix: give each cell its own data subset when adding a
 dataloader to a mesh

---
 meshiphi/mesh_generation/mesh_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 1a3215c..cf94eec 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -308,17 +308,18 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
         for cellbox in self.mesh.cellboxes:
             if isinstance(cellbox, CellBox):
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() + 
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert bounds.get_width() % cell_width == 0, \
-- 
2.43.0


From 2ae5505fba4500eb623bdab71902f46605081dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 13/65] fix: MODIS dataloader failing on an attribute that does
 not exist

---
 meshiphi/dataloaders/scalar/modis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..f566ca5 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening file {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
@@ -27,6 +27,7 @@ class MODISDataLoader(ScalarDataLoader):
 
         # Set areas obscured by cloud to NaN values
         data = data.where(data.cloud != 1, drop=True)
+        data = data[['SIC']]
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 4ef04797f6ace4f16c7fcb00d6df4f629b2d66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:14 +0000
Subject: [PATCH 14/65] fix: vector MIN/MAX over several CSV files no longer
 mixes up rows with equal index

---
 meshiphi/dataloaders/vector/vector_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/vector_csv.py b/meshiphi/dataloaders/vector/vector_csv.py
index fe53b5e..976989a 100644
--- a/meshiphi/dataloaders/vector/vector_csv.py
+++ b/meshiphi/dataloaders/vector/vector_csv.py
@@ -21,7 +21,7 @@ class VectorCSVDataLoader(VectorDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From c969ff2cbed4febf1f3c20db3bba4bb896c4a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 15/65] fix: compute dmag splitting condition on gridded vector
 data

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6587775..d7c7f65 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1011,7 +1011,7 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
+        each_vector = np.stack([np.ravel(dps[name]) for name in data_names], axis=-1)
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
         
         delta_vector = each_vector - ave_vector
-- 
2.43.0


From 08d153a866895e110cdd87122e399ce800801fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 16/65] fix: take curl of gridded vector data along the right
 axes

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index d7c7f65..87e70d8 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1067,7 +1067,9 @@ class VectorDataLoader(DataLoaderInterface):
             data_arrays = [data[name].values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
-            return np.dstack(data_arrays)
+            vector_field = np.dstack(data_arrays)
+            # Order as (long, lat), as is done for pd.DataFrames
+            return np.swapaxes(vector_field, 0, 1)
         
         if type(data) == pd.core.frame.DataFrame:
             return meshgrid_from_df(data, data_name_list)
-- 
2.43.0


From 41d4fd6589e31bd9e093cae5ee846829618aa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 17/65] fix: return vector values as floats so that meshes of
 integer data can be saved

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 87e70d8..11a96d8 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -522,7 +522,7 @@ class VectorDataLoader(DataLoaderInterface):
             values = get_value_from_xr(dps, self.data_name_list, bounds, agg_type, skipna)
             
         # Put in dict to map variable to values
-        return {self.data_name_list[i]: values[i] for i in range(len(self.data_name_list))}
+        return {self.data_name_list[i]: float(values[i]) for i in range(len(self.data_name_list))}
 
     def get_hom_condition(self, bounds, splitting_conds, agg_type='MEAN', data=None):
         '''
-- 
2.43.0


From 00a38fd3f4576a813466f0b9348b7d37885e0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 18/65] fix: weight look up table polygons by their own share
 of the cell

---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..8719c8c 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -273,9 +273,9 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
+            polygons = polygons.assign(weights=[
+                self.calculate_coverage(bounds, polygons['geometry'].iloc[[i]])
+                for i in range(len(polygons))])
             if agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
-- 
2.43.0


From 2c90ad8eb392e921e06b8f92ea4987d977bf3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 19/65] fix: look up table MEDIAN returns the median value, not
 a table row

---
 meshiphi/dataloaders/lut/abstract_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 8719c8c..8d2164a 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -281,6 +281,7 @@ class LutDataLoader(DataLoaderInterface):
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
+                polygons = polygons.sort_values(self.data_name)
                 # Chunk by cumulative weight
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
@@ -289,7 +290,7 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half.iloc[0][self.data_name]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From 1830ca8b8340eeb0562eea0c9f074a992ec4556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 20/65] fix: rename the data column, not the rows, of look up
 tables

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 8d2164a..26cca91 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -399,7 +399,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From d12b706ff2863cb73ba138f11e105400aedf5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 21/65] fix: treat omitted look up table splitting options as
 off

---
 meshiphi/dataloaders/lut/abstract_lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 26cca91..c3bd053 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -338,10 +338,10 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False) == True: 
                 hom_type = "HOM"
         # If we want to split on the boundary
-        elif splitting_conds['boundary']:
+        elif splitting_conds.get('boundary', False):
             if any(p.boundary.intersects(bounds_polygon) for p in polygons):
                 hom_type = 'HET'
             
-- 
2.43.0


From 1d3dd0b88ab76cf04059ed59ba976afc84c11734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:46 +0000
Subject: [PATCH 22/65] fix: accept look up table CSV columns in either order

---
 meshiphi/dataloaders/lut/lut_csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index abef752..05ca3b8 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -38,6 +38,8 @@ class LutCSV(LutDataLoader):
         
         # Set data name to column in CSV
         self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
+        # Columns may have been given in either order
+        csv_df = csv_df[['geometry', self.data_name]].copy()
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From 28d5758dea89c02c0cbdd796b7bcdcfb107ead9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:50 +0000
Subject: [PATCH 23/65] fix: points on the antimeridian are inside the
 cellboxes crossing it

---
 meshiphi/mesh_generation/aggregated_cellbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/aggregated_cellbox.py b/meshiphi/mesh_generation/aggregated_cellbox.py
index 23377d4..25e0c75 100644
--- a/meshiphi/mesh_generation/aggregated_cellbox.py
+++ b/meshiphi/mesh_generation/aggregated_cellbox.py
@@ -165,6 +165,10 @@ class AggregatedCellBox:
                 contains_points (bool): True if this CellBox contains a point given by
                     parameters (lat, long)
         """
+        # The antimeridian is the seam of the two polygons of a cellbox crossing
+        # it, but lies inside the cellbox
+        if abs(long) == 180 and 180 > self.boundary.get_long_min() > self.boundary.get_long_max() > -180:
+            return self.boundary.get_lat_min() < lat < self.boundary.get_lat_max()
         shapely_boundary = self.boundary.to_polygon()
         point = Point(long, lat)
         return shapely_boundary.contains(point)
-- 
2.43.0


From 1404a9138af394cedb53459698aec9e01e09fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:25 +0000
Subject: [PATCH 24/65] fix: take curl over neighbouring columns in cells
 crossing the antimeridian

---
 meshiphi/dataloaders/vector/abstract_vector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 11a96d8..4c6cc20 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -953,6 +953,11 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
         # Create a meshgrid of vectors from the data
         vector_field = self._create_vector_meshgrid(dps, self.data_name_list)
+        # Columns are ordered by longitude value. If bounds cross the antimeridian, 
+        # move those east of it behind those west of it, so neighbours are adjacent
+        if bounds.get_long_min() > bounds.get_long_max():
+            num_east = np.count_nonzero(np.unique(dps['long']) <= bounds.get_long_max())
+            vector_field = np.roll(vector_field, -num_east, axis=0)
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-- 
2.43.0


From afa087371a89ea41ba0c5f2926fe7d4460cfeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 25/65] fix: refuse boundaries whose longitudes lie beyond
 either side of -180:180

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 1f2f90d..631ba25 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -192,7 +192,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From da1f37f058f45a91faa9333be1c6db2976b5ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 26/65] fix: refuse malformed dates relative to TODAY instead
 of dropping parts of them

---
 meshiphi/mesh_generation/boundary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 631ba25..55cbbbf 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -151,12 +151,15 @@ class Boundary:
             if datetime_str.strip() == "TODAY":
                 today = datetime.today()
                 return today.strftime(DATE_FORMAT)
-            elif "TODAY" not in datetime_str:
+            elif not datetime_str.strip().startswith("TODAY"):
                 raise ValueError(f'Incorrect date format given. Cannot convert "{datetime_str}" to date.')
             
+            # everything after 'TODAY' has to be a single signed number of days.
+            offset = datetime_str.strip()[len("TODAY"):].strip()
+
                 # check for increment to system time.
-            if "+" in datetime_str:
-                increment = datetime_str.split("+")[1].strip()
+            if offset.startswith("+"):
+                increment = offset[1:].strip()
                 try:
                     increment = float(increment)
                     datetime_object = datetime.today() + timedelta(days = increment)
@@ -166,8 +169,8 @@ class Boundary:
                         f'Time increment "{increment}" cannot be cast to float')
                 
                 # check for decrement to system time.
-            elif "-" in datetime_str:
-                decrement = datetime_str.split("-")[1].strip()
+            elif offset.startswith("-"):
+                decrement = offset[1:].strip()
                 try:
                     decrement = float(decrement)
                     datetime_object = datetime.today() - timedelta(days = decrement)
-- 
2.43.0


From d14893f32f37e978a4ddc1b429a75fa3aabfb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 27/65] fix: validate mesh configs given as a filename

---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 9be5fdb..1015a7e 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -109,16 +109,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From 3d404d76beb04b5da100f7a95921e158e44910b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 28/65] fix: refuse negative cell sizes, which built a mesh
 without cells

---
 meshiphi/config_validation/mesh_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/mesh_schema.py b/meshiphi/config_validation/mesh_schema.py
index bf8bb78..41a851a 100644
--- a/meshiphi/config_validation/mesh_schema.py
+++ b/meshiphi/config_validation/mesh_schema.py
@@ -12,8 +12,8 @@ region_schema = {
         "long_max": {"type": "number"},
         "start_time": {"type": "string"},
         "end_time": {"type": "string"},
-        "cell_width": {"type": "number"},
-        "cell_height": {"type": "number"}
+        "cell_width": {"type": "number", "exclusiveMinimum": 0},
+        "cell_height": {"type": "number", "exclusiveMinimum": 0}
     }
 }
 
-- 
2.43.0


From 4bcced6ea23eaa7525078058836af46c83387cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 29/65] fix: default height of the rectangle dataloader

---
 meshiphi/dataloaders/scalar/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..a40d45d 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-- 
2.43.0


From de9aa7456608c969e555c16823852d02f8429c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:02 +0000
Subject: [PATCH 30/65] fix: read western longitudes of ERA5 wind files

---
 meshiphi/dataloaders/vector/era5_wind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/dataloaders/vector/era5_wind.py b/meshiphi/dataloaders/vector/era5_wind.py
index a075775..5673d6a 100644
--- a/meshiphi/dataloaders/vector/era5_wind.py
+++ b/meshiphi/dataloaders/vector/era5_wind.py
@@ -34,6 +34,10 @@ class ERA5WindDataLoader(VectorDataLoader):
         # Change column names
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
+        # Change domain of dataset from [0:360) to [-180:180)
+        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Sort the 'long' axis so that sel() will work
+        data = data.sortby('long')
 
         # Set min time to start of month to ensure we include data as we only have a
         # monthly cadence. Assuming time is in str format
-- 
2.43.0


From 1b376bf2766cabce39134470b4574b229e8ee81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:02 +0000
Subject: [PATCH 31/65] fix: include the last day of the period in IceNet data

---
 meshiphi/dataloaders/scalar/icenet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..1a2963e 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -86,7 +86,7 @@ class IceNetDataLoader(ScalarDataLoader):
         #logging.info(f"- Found date {datetime.strftime('%Y-%m-%d')}")
 
         # Choose predictions from earliest date before start_date
-        ds = ds.sel(leadtime=range(days_ago, time_range.days + days_ago))
+        ds = ds.sel(leadtime=range(days_ago, time_range.days + days_ago + 1))
         # Set to pd.DataFrame so can limit by lat/long
         df = ds.to_dataframe().reset_index()
         # Set time column to be dates of predictions
-- 
2.43.0


From 474addcbf3146bc4fdf1b64195860b53484f39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:02 +0000
Subject: [PATCH 32/65] fix: read IceNet dates when the folder's path contains
 a dot

---
 meshiphi/dataloaders/scalar/icenet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 1a2963e..feb5b3d 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -2,6 +2,8 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 
 import logging
 
+from os.path import basename
+
 from datetime import datetime, timedelta
 
 import xarray as xr
@@ -30,7 +32,7 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
-- 
2.43.0


From 0345deff6eda971531b8b5bf23332918ffd124ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:28 +0000
Subject: [PATCH 33/65] fix: label vector magnitudes with the axes of the
 components, not of the dataset

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 4c6cc20..e438ed4 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -212,10 +212,10 @@ class VectorDataLoader(DataLoaderInterface):
                 Same as parent method
             '''
             x, y = names
-            data['_magnitude'] = (data.dims, 
+            data['_magnitude'] = (data[x].dims, 
                                   np.linalg.norm([data[x].data, data[y].data], 
                                                  axis=0))
-            data['_direction'] = (data.dims, 
+            data['_direction'] = (data[x].dims, 
                                   np.arctan2(data[y].data, data[x].data))
             return data
         
-- 
2.43.0


From 1933beb82537fce5ac3fb9732632d9d0e881dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:29 +0000
Subject: [PATCH 34/65] fix: read several MODIS files at once

---
 meshiphi/dataloaders/scalar/modis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index f566ca5..f9abd8d 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -26,7 +26,7 @@ class MODISDataLoader(ScalarDataLoader):
         data = data.rename({'iceArea': 'SIC'})
 
         # Set areas obscured by cloud to NaN values
-        data = data.where(data.cloud != 1, drop=True)
+        data = data.where((data.cloud != 1).compute(), drop=True)
         data = data[['SIC']]
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
-- 
2.43.0


From ab76f26196e0dd037e57cb6cac4fa1fc3f527091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:41 +0000
Subject: [PATCH 35/65] fix: order ECMWF forecasts by time, not by file name

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..c6b1609 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -82,7 +82,7 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
             logging.error('\tNo files found for date range '+\
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
-        data = xr.concat(data_array,'time')
+        data = xr.concat(data_array,'time').sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From f0198281c64f452b56dac97f566d307d7bd8d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:59 +0000
Subject: [PATCH 36/65] fix: curl of gridded vectors whose file orders its axes
 as (long, lat)

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index e438ed4..fb7d89d 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1069,7 +1069,7 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            data_arrays = [data[name].transpose('lat', 'long', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             vector_field = np.dstack(data_arrays)
-- 
2.43.0


From 6bbb9d1a0cdbee76629c076d0817a29b2fe27dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 37/65] fix: give each day the ice thickness of its own season
 only

---
 meshiphi/dataloaders/lut/thickness.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..6d69876 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,10 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame({'time': dates,
+                                          'geometry': region.geometry & bounds_polygon,
+                                          'thickness': [region.get_value(month)
+                                                        for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From 7dff73eb882cd05b079599c175d5950a15b86b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 38/65] fix: split multipolygons of look-up tables whose rows
 share an index

---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index c3bd053..73b61d2 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,14 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        for i, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[i]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[i]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
-- 
2.43.0


From 4743d14a092cc72041daf69e6e73ed1151c3f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 39/65] fix: accept 0 as the centre of abstract shapes

---
 meshiphi/dataloaders/scalar/shape.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index a40d45d..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From accdb4262be602d405651230a5b4cfaf965264e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 40/65] fix: accept 0 as the centre of abstract vector shapes

---
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..7be80fd 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From 147823b8b39953ee1e8c4edec9314232d47968ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 41/65] fix: default parameters of abstract vector shapes

---
 meshiphi/dataloaders/vector/vector_shape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 7be80fd..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,26 +32,26 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From 6237e6a68cd39b2df07e391bc8e55ef0432ef498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 42/65] fix: thickness of sectors that also touch the edge of
 the region

---
 meshiphi/dataloaders/lut/thickness.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index 6d69876..82f5f2f 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -4,6 +4,7 @@ import logging
 
 import pandas as pd
 from shapely import wkt, Polygon
+from shapely.ops import unary_union
 
 
 # Mapping of month number to season per hemisphere
@@ -108,11 +109,15 @@ class ThicknessDataLoader(LutDataLoader):
         for region in regions:
             
             intersection = region.geometry & bounds_polygon
+            # Keep only the areas if edges or corners also touch
+            if intersection.geom_type == 'GeometryCollection':
+                intersection = unary_union([geom for geom in intersection.geoms
+                                            if geom.area > 0])
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
                 region_df = pd.DataFrame({'time': dates,
-                                          'geometry': region.geometry & bounds_polygon,
+                                          'geometry': intersection,
                                           'thickness': [region.get_value(month)
                                                         for month in dates.month]})
                 
-- 
2.43.0


From 0b5f6c850ce5039d15c6477522a73576e11c41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:33 +0000
Subject: [PATCH 43/65] fix: a folder with a shapefile can be given as look-up
 data; its accompanying files are not read on their own

---
 meshiphi/dataloaders/lut/abstract_lut.py   | 5 +++++
 meshiphi/dataloaders/lut/lut_shapefile.py  | 5 +++--
 meshiphi/dataloaders/lut/scotland_ncmpa.py | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 73b61d2..6c67e08 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -12,6 +12,11 @@ from shapely.ops import unary_union
 
 from meshiphi.utils import round_to_sigfig
 
+# Files that accompany a shapefile, and are read along with its '.shp' file
+SHAPEFILE_SIDECARS = ('.shx', '.dbf', '.prj', '.cpg', '.sbn', '.sbx', '.qix',
+                      '.xml')
+
+
 class LutDataLoader(DataLoaderInterface):
     '''
     Abstract class for all LookUp Table Datasets.
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..a290250 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -1,4 +1,4 @@
-from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
+from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader, SHAPEFILE_SIDECARS
 from meshiphi.mesh_generation.boundary import Boundary
 import logging
 
@@ -49,7 +49,8 @@ class LutShapefile(LutDataLoader):
                 data_name ('dummy_data' by default)
         """
         # Read in all files specified and extract geometry of shapes
-        gdf_list = [gpd.read_file(file) for file in self.files]
+        gdf_list = [gpd.read_file(file) for file in self.files
+                    if not file.lower().endswith(SHAPEFILE_SIDECARS)]
         shape_df = gpd.GeoDataFrame(pd.concat(gdf_list, ignore_index=True))
         # Give shapes a value defined in config
         shape_df[self.data_name] = self.value
diff --git a/meshiphi/dataloaders/lut/scotland_ncmpa.py b/meshiphi/dataloaders/lut/scotland_ncmpa.py
index 8f928a0..00efc88 100644
--- a/meshiphi/dataloaders/lut/scotland_ncmpa.py
+++ b/meshiphi/dataloaders/lut/scotland_ncmpa.py
@@ -1,4 +1,4 @@
-from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
+from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader, SHAPEFILE_SIDECARS
 from meshiphi.mesh_generation.boundary import Boundary
 import logging
 
@@ -24,7 +24,8 @@ class ScotlandNCMPA(LutDataLoader):
                 and variable 'thickness'
         """
         # Read in all files specified and extract geometry of exclusion zones
-        gdf_list = [gpd.read_file(file) for file in self.files]
+        gdf_list = [gpd.read_file(file) for file in self.files
+                    if not file.lower().endswith(SHAPEFILE_SIDECARS)]
         exclusion_df = gpd.GeoDataFrame(pd.concat(gdf_list, ignore_index=True))
         # Denote all geometries as exclusion zones
         exclusion_df['exclusion_zone'] = True
-- 
2.43.0


From 42b586bb34e7004f6307489c475c4010e1c5baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:41 +0000
Subject: [PATCH 44/65] fix: vector readers load data of several files, so that
 it can be aggregated

---
 meshiphi/dataloaders/vector/baltic_current.py    | 2 +-
 meshiphi/dataloaders/vector/north_sea_current.py | 2 +-
 meshiphi/dataloaders/vector/oras5_current.py     | 2 +-
 meshiphi/dataloaders/vector/sose.py              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/vector/baltic_current.py b/meshiphi/dataloaders/vector/baltic_current.py
index a6953dd..7d904cf 100644
--- a/meshiphi/dataloaders/vector/baltic_current.py
+++ b/meshiphi/dataloaders/vector/baltic_current.py
@@ -22,7 +22,7 @@ class BalticCurrentDataLoader(VectorDataLoader):
         """
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
 
         # Reduce and drop unused depth dimension
         data = data.isel(depth=0)
diff --git a/meshiphi/dataloaders/vector/north_sea_current.py b/meshiphi/dataloaders/vector/north_sea_current.py
index 5396f28..c5030d6 100644
--- a/meshiphi/dataloaders/vector/north_sea_current.py
+++ b/meshiphi/dataloaders/vector/north_sea_current.py
@@ -21,7 +21,7 @@ class NorthSeaCurrentDataLoader(VectorDataLoader):
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         # Change column names
         data = data.rename({'lon': 'long',
                             'times': 'time',
diff --git a/meshiphi/dataloaders/vector/oras5_current.py b/meshiphi/dataloaders/vector/oras5_current.py
index 69a7ff1..bf702f1 100644
--- a/meshiphi/dataloaders/vector/oras5_current.py
+++ b/meshiphi/dataloaders/vector/oras5_current.py
@@ -23,7 +23,7 @@ class ORAS5CurrentDataLoader(VectorDataLoader):
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         
         # Change column names
         data = data.rename({'nav_lon': 'long',
diff --git a/meshiphi/dataloaders/vector/sose.py b/meshiphi/dataloaders/vector/sose.py
index 5cdbae9..0f18471 100644
--- a/meshiphi/dataloaders/vector/sose.py
+++ b/meshiphi/dataloaders/vector/sose.py
@@ -20,7 +20,7 @@ class SOSEDataLoader(VectorDataLoader):
 
         # Open dataset and cast to pandas df
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         # Cast to dataframe to modify lon coordinate
         df = data.to_dataframe().reset_index()
         
-- 
2.43.0


From 2e0897e46ca335a302f36be1776553681364d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:51 +0000
Subject: [PATCH 45/65] fix: scalar data of several files is loaded before it
 is downsampled or inspected

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 87fce45..e303e7b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -51,6 +51,9 @@ class ScalarDataLoader(DataLoaderInterface):
             
         # Read in and manipulate data to standard form
         self.data = self.import_data(bounds)
+        # Data of several files is read lazily; load what remains of it
+        if isinstance(self.data, xr.Dataset):
+            self.data = self.data.compute()
         if 'files' in params:
             logging.info('\tFiles read:')
             for file in self.files:
-- 
2.43.0


From 31e67dd60784680d2c8fe71769946a33509f2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:52 +0000
Subject: [PATCH 46/65] fix: sample GeoTIFF exports line by line, for any
 number of lines and columns

---
 meshiphi/mesh_generation/environment_mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 7209d70..dfad4fd 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1243,14 +1243,15 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
+            for line in range(nlines):
+                for col in range(ncols):
+                    # centeralize the pixel lat and long values
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height
+                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
-- 
2.43.0


From 3822699b55f3210b5a32587dc6a5d40d45eb2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:12 +0000
Subject: [PATCH 47/65] fix: export meshes that cross the antimeridian as
 GeoTIFF

---
 meshiphi/mesh_generation/environment_mesh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index dfad4fd..1814bd1 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1242,7 +1242,7 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
+            mesh_width = self.bounds.get_width()
             pixel_height = mesh_height / nlines
             pixel_width = mesh_width / ncols
             samples = []
@@ -1252,6 +1252,8 @@ class EnvironmentMesh:
                     # centeralize the pixel lat and long values
                     pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height
                     pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width
+                    if pixel_long > 180:   # east of the antimeridian
+                        pixel_long -= 360
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
@@ -1402,9 +1404,9 @@ class EnvironmentMesh:
         nlines = params["sampling_resolution"][0]
         ncols = params["sampling_resolution"][1]
 
-        # define image extent based on mesh bounds
+        # define image extent based on mesh bounds, continued past 180 if the mesh crosses the antimeridian
         extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        ), self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From 3a96d92889540f74c16806d19d2b1ed1871670ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:12 +0000
Subject: [PATCH 48/65] fix: GeoTIFF export to paths the shell would take apart

---
 meshiphi/mesh_generation/environment_mesh.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1814bd1..95ce933 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1380,9 +1380,7 @@ class EnvironmentMesh:
             os.close(fp)
             if "colour_conf" in params.keys():
                 color_file = params["colour_conf"]
-            cmd = "gdaldem color-relief " + input_file \
-                + ' ' + color_file + ' ' + input_file
-            subprocess.check_call(cmd, shell=True)
+            subprocess.check_call(["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)])
             # remove additional files created while generating the tif
             file_path = os.path.abspath(input_file)
             dir_path = os.path.split(file_path)[0]
-- 
2.43.0


From 72259a011bc32e02a1f7d1ceb223fcac29807571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 49/65] fix: GeoTIFF export leaves no scratch files behind

---
 meshiphi/mesh_generation/environment_mesh.py | 22 +++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 95ce933..02ad167 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1362,14 +1362,14 @@ class EnvironmentMesh:
                         params (dict): a dict that contains the export parametrs.\n
 
             """
-            fp, color_file = tempfile.mkstemp(suffix='.txt')
+            fp, default_color_file = tempfile.mkstemp(suffix='.txt')
             data = data[~np.isnan(data)]  # get rid of the nans before calculating range
             _max = np.nanmax(data)
             _min = np.nanmin(data)
             _range = _max-_min
             inf_color = '255 0 0' # red color for inf value
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
-            with open(color_file, 'w') as f:
+            with open(default_color_file, 'w') as f:
                 for i, c in enumerate(colors[:-1]):
                     f.write(str(int(_min + (i + 1)*_range/len(colors))) +
                             ' ' + c + '\n')
@@ -1378,17 +1378,9 @@ class EnvironmentMesh:
                 f.write (str(np.nan) +
                         ' ' + inf_color + '\n') # render nans in red
             os.close(fp)
-            if "colour_conf" in params.keys():
-                color_file = params["colour_conf"]
+            color_file = params.get("colour_conf", default_color_file)
             subprocess.check_call(["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)])
-            # remove additional files created while generating the tif
-            file_path = os.path.abspath(input_file)
-            dir_path = os.path.split(file_path)[0]
-            additional_files = ["grid_data" , "grid_data.aux.xml"]
-            for file in additional_files: 
-                file_path = Path(dir_path +"/"+ file)
-                if os.path.isfile (file_path):
-                     os.remove(file_path)
+            os.remove(default_color_file)
 
         # Only import if we need GDAL, to avoid having it as a requirement
         from osgeo import gdal, ogr, osr
@@ -1414,9 +1406,9 @@ class EnvironmentMesh:
         data = []
         data = np.reshape(np.asarray([get_sample_value(
             sample) for sample in samples], dtype=np.float32), (nlines, ncols))
-        # create a temp grid
-        grid_data = driver.Create(
-            'grid_data', ncols, nlines, 1, gdal.GDT_Float32)
+        # create a temp grid, in memory so that no file is overwritten or left behind
+        grid_data = gdal.GetDriverByName('MEM').Create(
+            '', ncols, nlines, 1, gdal.GDT_Float32)
         # setup geo-transform
         grid_data.SetGeoTransform(get_geo_transform(extent, nlines, ncols))
         # Write data
-- 
2.43.0


From ce39aa1253a76df46a90409b479777c6edd8226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:23 +0000
Subject: [PATCH 50/65] fix: infinite values of single cells in GeoTIFF exports

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 02ad167..03f4f47 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1284,8 +1284,8 @@ class EnvironmentMesh:
                         
                     if isinstance(value, collections.abc.Sequence): # if it is a vector then take the mean
                         value = np.mean (value)
-                        if value == float('inf') : # repalce inf with nan
-                            value = np.nan
+                    if value in (float('inf'), float('-inf')): # repalce inf with nan
+                        value = np.nan
                     # break to make sure we avoid getting multiple values (for lat and long on the bounds of multiple cellboxes)
                     break
             return value
-- 
2.43.0


From e92f09f4133d309a67e6f809929d57f085bce3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:23 +0000
Subject: [PATCH 51/65] fix: GeoTIFF exports without any value to show

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 03f4f47..afc3b41 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1364,8 +1364,8 @@ class EnvironmentMesh:
             """
             fp, default_color_file = tempfile.mkstemp(suffix='.txt')
             data = data[~np.isnan(data)]  # get rid of the nans before calculating range
-            _max = np.nanmax(data)
-            _min = np.nanmin(data)
+            _max = np.nanmax(data) if data.size else 0  # an image may show nothing but nans
+            _min = np.nanmin(data) if data.size else 0
             _range = _max-_min
             inf_color = '255 0 0' # red color for inf value
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
-- 
2.43.0


From 9ce04d55f79be5f2026867c54bd1cf6fb294b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 52/65] fix: merge meshes across the antimeridian whose columns
 do not divide the circle

---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index afc3b41..de8e40e 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -294,8 +294,9 @@ class EnvironmentMesh:
         if lat_diff % l_cell_height != 0:
             return False
 
+        # the grid goes on across the antimeridian, in both directions
         long_diff = l_bounds.get_long_min() - s_bounds.get_long_min()
-        if long_diff % l_cell_width != 0:
+        if (long_diff % 360) % l_cell_width != 0 and (-long_diff % 360) % l_cell_width != 0:
             return False 
 
 
-- 
2.43.0


From e904ce2937c3e6594291637065a0751e1f089f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:28 +0000
Subject: [PATCH 53/65] fix: mesh comparison: an id report without differences
 is empty instead of failing

---
 meshiphi/mesh_validation/mesh_comparator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index ded8c09..c452537 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -63,7 +63,7 @@ class MeshComparator:
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = cellboxes2.iloc[:0]
 
         # TODO update to check if there are cells that are common but split in diff
 
@@ -172,7 +172,7 @@ class MeshComparator:
             mismatched_df = mismatched_df.set_index('geometry')
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = pd.DataFrame(mesh2['cellboxes']).set_index('geometry').iloc[:0]
         return self._return_as(mismatched_df, return_type)
 
     def compare_neighbour_graph_values(self, mesh1, mesh2, return_type=None):
@@ -218,5 +218,5 @@ class MeshComparator:
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-            mismatched_df = pd.DataFrame()
+            mismatched_df = cellboxes2.iloc[:0]
         return self._return_as(mismatched_df, return_type)
-- 
2.43.0


From bd2f7d1048e2fb06e52bc198ac93def2ec7eba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:28 +0000
Subject: [PATCH 54/65] fix: mesh comparison: cells with other neighbours are
 reported one per row

---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index c452537..13e7353 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -214,7 +214,7 @@ class MeshComparator:
                     mismatched_rows += [cellbox_row]
         # If there were mismatched rows
         if mismatched_rows:
-            mismatched_df = pd.concat(mismatched_rows, axis=1)
+            mismatched_df = pd.concat(mismatched_rows)
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-- 
2.43.0


From 62bc8453c81c26538d96fe0f98aa6161efc8e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:22 +0000
Subject: [PATCH 55/65] fix: full mesh validation counts data on an edge shared
 by cellboxes once

---
 meshiphi/mesh_validation/full_mesh_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..23dbda7 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -127,7 +127,9 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
+        # Lower bounds are exclusive, as they are when a mesh is built, so that
+        # data on a shared edge is only compared to the cellbox it belongs to
+        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1], inclusive='right')]
+        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1], inclusive='right')]
     
         return raw_slice
-- 
2.43.0


From e68ec05049a7377dc500e2b3fdc93444522b4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:22 +0000
Subject: [PATCH 56/65] fix: full mesh validation includes cellboxes across the
 antimeridian

---
 meshiphi/mesh_validation/full_mesh_validator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index 23dbda7..384c6e2 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -130,6 +130,11 @@ class FullMeshValidator:
         # Lower bounds are exclusive, as they are when a mesh is built, so that
         # data on a shared edge is only compared to the cellbox it belongs to
         raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1], inclusive='right')]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1], inclusive='right')]
+        if bounds.get_long_min() < bounds.get_long_max():
+            raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1], inclusive='right')]
+        # If cellbox crosses the antimeridian
+        else:
+            raw_slice = raw_slice[(raw_slice['long'] > bounds.get_long_min()) |
+                                  (raw_slice['long'] <= bounds.get_long_max())]
     
         return raw_slice
-- 
2.43.0


From 0fa11f814517aa50baa1b9013af5bd7b24c18466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:22 +0000
Subject: [PATCH 57/65] fix: mesh validation finds the cellbox of data on
 cellbox edges

---
 meshiphi/mesh_validation/mesh_validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 039fdc6..37aa46c 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -139,7 +139,10 @@ class MeshValidator:
                     lat = point ['lat']
                     long = point ['long']
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
-                        if agg_cellbox.contains_point(lat , long):
+                        cb_bounds = agg_cellbox.get_bounds()
+                        # Lower bounds are exclusive, as they are when data is assigned to cellboxes
+                        if cb_bounds.get_lat_min() < lat <= cb_bounds.get_lat_max() and \
+                           cb_bounds.get_long_min() < long <= cb_bounds.get_long_max():
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
                             break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
-- 
2.43.0


From 6425626e4b81b4413ae97245e77deadde90c26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 58/65] fix: mesh validation works when the first cellbox has
 been split

---
 meshiphi/mesh_validation/mesh_validator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 37aa46c..650f9fc 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -71,6 +71,15 @@ class MeshValidator:
         return distance
     
 
+    def get_data_sources (self):
+        """
+            gets the data sources of the mesh
+            Returns:
+                a list of the data sources (Metadata) of the mesh's cellboxes
+        """
+        # cellboxes that have been split are left as None in the mesh
+        return next(cellbox for cellbox in self.mesh.cellboxes if cellbox is not None).get_data_source()
+
     def get_value_from_data (self , sample):
         """
             gets the actual data within the provided sample lat and long
@@ -85,7 +94,7 @@ class MeshValidator:
         lat_range = [sample[0] , lat_end]
         long_range = [sample[1] , long_end ]
         time_range = self.mesh.get_bounds().get_time_range()
-        for source in self.mesh.cellboxes[0].get_data_source():
+        for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
             data_name = data_loader.get_data_col_name()
             dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
@@ -129,7 +138,7 @@ class MeshValidator:
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-            for source in self.mesh.cellboxes[0].get_data_source():
+            for source in self.get_data_sources():
                 data_loader = source.get_data_loader()
                 dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
                 
-- 
2.43.0


From d5d35bf253b5933643ed0e56f752b3b33fb56351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 59/65] fix: mesh validation samples meshes that cross the
 antimeridian

---
 meshiphi/mesh_validation/mesh_validator.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 650f9fc..f94f2af 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -59,7 +59,12 @@ class MeshValidator:
         SAMPLE_DIM = 2  # each sample contains lat and long
     
         bounds = self.mesh.get_bounds()
-        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , bounds.long_range])
+        long_range = list(bounds.long_range)
+        # if the mesh crosses the antimeridian, sample eastwards from its western end
+        if long_range[1] < long_range[0]:
+            long_range[1] += 360
+        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , long_range])
+        samples[samples[:, 1] > 180, 1] -= 360
         # compare the sampled lat and long values in data_file to the values obtained by mesh ( agg_values returned by  get_value)
         actual_value = np.array([])
         mesh_value = np.array([])
@@ -115,8 +120,14 @@ class MeshValidator:
         # make sure we are not exceeding the mesh bounds
         if lat_end > self.mesh.get_bounds().get_lat_max():
             lat_end = self.mesh.get_bounds().get_lat_max()
-        if long_end > self.mesh.get_bounds().get_long_max():
-            long_end = self.mesh.get_bounds().get_long_max()
+        long_max = self.mesh.get_bounds().get_long_max()
+        # if the antimeridian lies between the sample and the end of the mesh
+        if long_max < sample[1]:
+            long_max += 360
+        if long_end > long_max:
+            long_end = long_max
+        if long_end > 180:
+            long_end -= 360
         return lat_end,long_end
 
 
@@ -150,8 +161,11 @@ class MeshValidator:
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
                         cb_bounds = agg_cellbox.get_bounds()
                         # Lower bounds are exclusive, as they are when data is assigned to cellboxes
+                        in_long = (cb_bounds.get_long_min() < long, long <= cb_bounds.get_long_max())
+                        # Only one of them holds within a cellbox crossing the antimeridian
+                        crosses = cb_bounds.get_long_min() > cb_bounds.get_long_max()
                         if cb_bounds.get_lat_min() < lat <= cb_bounds.get_lat_max() and \
-                           cb_bounds.get_long_min() < long <= cb_bounds.get_long_max():
+                           (any(in_long) if crosses else all(in_long)):
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
                             break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
-- 
2.43.0


From 8d51d70dc6cb2b726002da0df975d97c2cf6f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:24 +0000
Subject: [PATCH 60/65] fix: a grid cell without complete vectors keeps the
 mean of a component that has data

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index fb7d89d..19e7896 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -469,7 +469,8 @@ class VectorDataLoader(DataLoaderInterface):
             # If no data, return np.nan for each variable
             if data_count == 0:
                 values = [np.nan for _ in variable_names]
-            elif np.isnan(dps._magnitude).all():
+            # MEAN and STD are taken for each variable by itself, and need no complete vector
+            elif np.isnan(dps._magnitude).all() and agg_type not in ['MEAN', 'STD']:
                 values = [np.nan for _ in variable_names]
             # If want count
             elif agg_type == 'COUNT':
-- 
2.43.0


From d2fb2a49d65097efcc1ffa23c5f9e8e8b1a125dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 61/65] fix: plot flags of meshes where some cells lack the
 flag

---
 meshiphi/mesh_plotting/mesh_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 4635489..bdb50ac 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -41,7 +41,7 @@ class MeshPlotter:
         """
         for cellbox in self.mesh_json['cellboxes']:
             polygon = shapely.wkt.loads(cellbox['geometry'])
-            if cellbox[value_name] == True:
+            if cellbox.get(value_name) == True:
                 self.plot.add_geometries([polygon], ccrs.PlateCarree(), facecolor=colour, alpha=1.0, edgecolor='darkslategrey')
 
     def plot_cmap(self, value_name, colourmap):
-- 
2.43.0


From f30e7614d42021636ca26a37a9c6a34efab5a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 62/65] fix: plot meshes where some cells have no or an
 infinite value

---
 meshiphi/mesh_plotting/mesh_plotter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index bdb50ac..5fce0f6 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -5,6 +5,7 @@ from shapely.geometry import Point, Polygon
 import matplotlib
 from matplotlib import cm
 import matplotlib.pyplot as plt
+import numpy as np
 import pandas as pd
 
 class MeshPlotter:
@@ -53,13 +54,18 @@ class MeshPlotter:
         """
         
         # get min and max values for normalisation
-        value_min = self.mesh_df[value_name].min()
-        value_max = self.mesh_df[value_name].max()
+        values = pd.to_numeric(self.mesh_df[value_name])
+        values = values[np.isfinite(values)]
+        value_min = values.min()
+        value_max = values.max()
         value_diff = value_max - value_min
 
         # get Colourmap from matplotlib
         cmap = matplotlib.colormaps[colourmap]
         for cellbox in self.mesh_json['cellboxes']:
+            # leave cells without a (finite) value unpainted
+            if not np.isfinite(cellbox.get(value_name, np.nan)):
+                continue
 
             # normalise value
             normalized_value = (cellbox[value_name] - value_min) / value_diff
-- 
2.43.0


From d0e38dd9c7791ec3d43a5a23a44dae2b397152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 63/65] fix: save the plotter's own figure

---
 meshiphi/mesh_plotting/mesh_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 5fce0f6..c349fce 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -78,4 +78,4 @@ class MeshPlotter:
         Args:
             filename (str): The name of the file to save the plot to.
         """
-        plt.savefig(filename)
\ No newline at end of file
+        self.fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 0b48d7a36ea67b044bd84a8a4d7306a7df7a2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 64/65] fix: paint cells when a plotted value is the same
 everywhere

---
 meshiphi/mesh_plotting/mesh_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index c349fce..de0b6fe 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -68,7 +68,8 @@ class MeshPlotter:
                 continue
 
             # normalise value
-            normalized_value = (cellbox[value_name] - value_min) / value_diff
+            # (a value that is the same everywhere gets the first colour)
+            normalized_value = (cellbox[value_name] - value_min) / value_diff if value_diff > 0 else 0.0
             polygon = shapely.wkt.loads(cellbox['geometry'])
             self.plot.add_geometries([polygon], ccrs.PlateCarree(), facecolor=cmap(normalized_value), alpha=1.0, edgecolor='darkslategrey')
    
-- 
2.43.0


From 58b09cb6ced8c4924b7dce4003941e22c69b7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:44 +0000
Subject: [PATCH 65/65] fix: plot meshes whose region crosses the antimeridian

---
 meshiphi/mesh_plotting/mesh_plotter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index de0b6fe..1a2f13a 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -25,12 +25,21 @@ class MeshPlotter:
 
         self.figscale = figscale
         
-        self.aspect_ratio = (self.long_max - self.long_min) / (self.lat_max - self.lat_min)
+        # width of the region, eastwards from long_min (also over the antimeridian)
+        width = self.long_max - self.long_min
+        centre = 0
+        if width <= 0:
+            width += 360
+            centre = self.long_min + width / 2
+
+        self.aspect_ratio = width / (self.lat_max - self.lat_min)
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = plt.axes(projection=ccrs.PlateCarree())
-        self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
+        projection = ccrs.PlateCarree(central_longitude=centre)
+        self.plot = plt.axes(projection=projection)
+        self.plot.set_extent([self.long_min - centre, self.long_min - centre + width, self.lat_min, self.lat_max],
+                             crs=projection)
 
 
     def plot_bool(self, value_name, colour):
-- 
2.43.0

