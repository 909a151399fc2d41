From ae34e1fa4d99b508078f99d3ad1095c885edc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 1/8] fix: accept a boundary penalisation zone of width 1

The back-zone broadcast used field[-width : -width + 1], an empty slice for
width = 1, so penalising a one-cell zone raised ValueError in 2D and 3D.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..7e68113 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, [-width]]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[[-width], :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..d066ee0 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, [-width]]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, [-width], :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[[-width], :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From f7b6580bc97d10946a8623b267f9a5ddbae88ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 2/8] fix: keep every Lagrangian field that is registered for
 IO

Fields were stored by name alone, so a field registered on a second grid
replaced the field of the same name on the first one, and registering more
fields on a named grid dropped the earlier ones: save wrote the wrong data
and load restored it. Fields now belong to their grid; a grid registered
without fields is restored as well.
---
 sopht/utils/IO.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..a7a700c 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -155,20 +155,26 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        grid_field_names = self.lagrangian_fields_with_grid_name.setdefault(
+            lagrangian_grid_name, []
+        )
+        # Field names are unique only within a grid
+        grid_fields = self.lagrangian_fields.setdefault(lagrangian_grid_name, {})
+        grid_fields_type = self.lagrangian_fields_type.setdefault(
+            lagrangian_grid_name, {}
+        )
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                field_name
-            )
+            grid_fields[field_name] = field
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape[0] == lagrangian_grid.shape[1]:
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                grid_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                grid_fields_type[field_name] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -282,8 +288,10 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field = self.lagrangian_fields[lagrangian_grid_name][field_name]
+                    field_type = self.lagrangian_fields_type[lagrangian_grid_name][
+                        field_name
+                    ]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +392,10 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field = self.lagrangian_fields[lagrangian_grid_name][field_name]
+                        field_type = self.lagrangian_fields_type[lagrangian_grid_name][
+                            field_name
+                        ]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,9 +404,9 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
-                                lagrangian_grid_name
-                            ][field_type][field_name][...]
+                            field[...] = f["Lagrangian"][lagrangian_grid_name][
+                                field_type
+                            ][field_name][...]
                         elif field_type == "Vector":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -404,7 +415,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            field[...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -561,7 +572,9 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_type = self.lagrangian_fields_type[lagrangian_grid_name][
+                    field_name
+                ]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From 77a50d4a2b386683975297ac8a80e0b7f1e06198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 3/8] fix: recognise a Lagrangian vector field on a grid of dim
 points

A (dim, N) field with N == dim matched the scalar test first, and was stored
and described in the XDMF file as a scalar.
---
 sopht/utils/IO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index a7a700c..d5cf10a 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -171,10 +171,10 @@ class IO:
                 grid_field_names.append(field_name)
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
-                grid_fields_type[field_name] = "Scalar"
-            elif field.shape == lagrangian_grid.shape:
+            if field.shape == lagrangian_grid.shape:
                 grid_fields_type[field_name] = "Vector"
+            elif field.shape[0] == lagrangian_grid.shape[1]:
+                grid_fields_type[field_name] = "Scalar"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
-- 
2.43.0


From ca43b57abb78a63f258d92caeca0a15448635c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 4/8] fix: do not overwrite the HDF5 file with its XDMF
 description

The XDMF name was made by replacing '.h5' anywhere in the path: a file saved
under any other name was overwritten by XML, and a directory with '.h5' in its
name was renamed too.
---
 sopht/utils/IO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index d5cf10a..ccb76f9 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -430,6 +430,12 @@ class IO:
 
         return time
 
+    @staticmethod
+    def _get_xdmf_file_name(h5_file_name, grid_name):
+        """Name of the XDMF file describing a grid of the given HDF5 file."""
+        stem = h5_file_name[:-3] if h5_file_name.endswith(".h5") else h5_file_name
+        return f"{stem}_{grid_name}.xmf"
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -523,7 +529,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(self._get_xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -559,7 +565,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = self._get_xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 8f7863a5b613527fdfedca1f674464e0a85123eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 5/8] fix: declare the number of origin and spacing entries in
 the 2D XDMF file

2D fields are described as a slice in 3D, so three values are written, but
two were declared.
---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index ccb76f9..2520d11 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -514,11 +514,11 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
+                <DataItem Name="Origin" Dimensions="{origin.size}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
+                <DataItem Name="Spacing" Dimensions="{dx.size}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {dx_string}
                 </DataItem>
-- 
2.43.0


From c27db23cf0aabb3220a4c91052b4bbb735d118d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 6/8] fix: reject a Lagrangian grid of another size on load

A file with a one-point grid was broadcast over the grid and fields of a
larger one instead of being refused.
---
 sopht/utils/IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2520d11..75ef4c7 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -379,9 +379,14 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    saved_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    # a single saved point would otherwise broadcast over the grid
+                    assert (
+                        saved_grid.shape == self.lagrangian_grids[lagrangian_grid_name].shape
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][...] = saved_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From 9e669260c6e8cdf1daa2e9bfe45dc6feadc05ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 7/8] fix: refuse unsupported real types in the 2D advection
 flux

---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..bf970cf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,10 +11,8 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
-    kernel_config = ps.CreateKernelConfig(
-        data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
-    )
+    pyst_dtype = get_pyst_dtype(real_t)
+    kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
     grid_info = (
         f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-- 
2.43.0


From 8814bc180e0bafbec424296e2cde154b2e093a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 8/8] fix: XDMF files refer to the HDF5 file from their own
 directory

Readers resolve a relative reference from the directory of the XDMF file,
so a file saved into a subdirectory was never found.
---
 sopht/utils/IO.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 75ef4c7..39efdf5 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,4 +1,6 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
@@ -506,10 +508,14 @@ class IO:
                 """
             return entry
 
+        # readers resolve the reference from the directory of the xdmf file
+        h5_reference = os.path.basename(h5_file_name)
         field_entries = ""
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
-            field_entries += generate_field_entry(h5_file_name, field_name, field_type)
+            field_entries += generate_field_entry(
+                h5_reference, field_name, field_type
+            )
 
         xdmffile = f"""<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -550,6 +556,8 @@ class IO:
             Time at which the fields are saved.
         """
         geometry_type = "XYZ" if self.dim == 3 else "XY"
+        # readers resolve the reference from the directory of the xdmf file
+        h5_reference = os.path.basename(h5_file_name)
 
         def generate_lagrangian_field_entry(
             h5_file_name,
@@ -597,7 +605,7 @@ class IO:
                     )[1:-1]
 
                 field_entries += generate_lagrangian_field_entry(
-                    h5_file_name,
+                    h5_reference,
                     field_name,
                     field_type,
                     field_grid_size_string,
@@ -608,7 +616,7 @@ class IO:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {h5_reference}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -625,7 +633,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.precision}" Format="HDF">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {h5_reference}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
 
-- 
2.43.0

