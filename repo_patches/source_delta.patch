From 63fb6fc868a336552cc42afbf46988a5f2a98bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 01/22] fix: crys: a zone without neighbours must not crash its
 rank

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..354ae69 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -202,7 +202,7 @@ if __name__ == '__main__':
 
     if size > 1:
         mpi_borders = get_mpi_borders(rank, zam, z, g)
-        max_length = max(list(map(len, mpi_borders.values())))
+        max_length = max(map(len, mpi_borders.values()), default=0)
 
         # todo numpy не позволяет делать массив с массивами разной длины, поэтому буфферы строятся по максимальной границе.
         send_superbuffer = np.empty((len(mpi_borders), max_length))
-- 
2.43.0


From ea5ced1a75fdf68b0bd6e35e556863eff021d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 02/22] fix: crys: wait for halo sends before their buffer is
 reused

---
 crysgsu/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 354ae69..16dbcf5 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,8 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        req = comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(req)
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
-- 
2.43.0


From 246fb7edf6a2cacd05d5c2f6504316350a857073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 03/22] fix: crys: use displacements of the gathered heights
 when zone sizes differ

---
 crysgsu/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 16dbcf5..1038fe1 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -169,9 +169,11 @@ def remesh(rank, his):
         print("Gathered array: {}".format(recvbuf.size))
 
     if rank == 0:
+        offset = 0
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[offset : offset + sendcounts[i]]):
                 f.Data['Hi'] = new_h
+            offset += sendcounts[i]
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
         g.store(OUT_REMESHED_MESH)
-- 
2.43.0


From 82f457aad3f80b069820b7e507d6ee043ab6b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 04/22] fix: grid: hierarchical split must survive a direction
 that cannot be split

A sign function which does not separate the faces left them linked with the
rejected child zone, and a zone which cannot be split at all was removed twice.
---
 crysgsu/gsu/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..8b564ec 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,9 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            # Roll back.
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -974,8 +977,9 @@ class Grid:
 
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
-            # Replace to the end.
-            self.Zones.remove(zone)
+            # Replace to the end (child zones stay empty and are not needed).
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From 7c54b3b4ec5e8e671fd51c774fa47438352a7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 05/22] fix: merge: total csv must not depend on listing order
 or include itself

os.listdir gives files in arbitrary order, so the rounding of the sums (and
the file the time column is taken from) was arbitrary. When dst_dir/.. is
src_dir, a repeated merge read its own total file as a source.
---
 crysgsu/merge.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crysgsu/merge.py b/crysgsu/merge.py
index 20d90ab..045140d 100644
--- a/crysgsu/merge.py
+++ b/crysgsu/merge.py
@@ -43,7 +43,8 @@ def merge(grid_file, src_dir, dst_dir):
           'src_dir={5}, dst_dir={6}'.format(grid_file, bs, nm, ts, sf,
                                             src_dir, dst_dir))
 
-    all_files = os.listdir(src_dir)
+    # Order of files must not influence the result.
+    all_files = sorted(os.listdir(src_dir))
 
     # We have to analyze only our *.txt files.
     match_files = [fn for fn in all_files if utils.is_filename_correct_crys_txt_file(fn, nm)]
@@ -76,7 +77,11 @@ def merge(grid_file, src_dir, dst_dir):
         return data
 
     # Finally put total *.csv file to dst_dir/../ directory.
-    csv_files = [fn for fn in all_files if fn[-4:] == '.csv']
+    # If this directory is src_dir, then total file of previous merge is not a source.
+    total_csv = '{0}/../{1}.csv'.format(dst_dir, nm)
+    csv_files = [fn for fn in all_files
+                 if (fn[-4:] == '.csv')
+                 and (os.path.realpath(src_dir + '/' + fn) != os.path.realpath(total_csv))]
     if len(csv_files) > 0:
         d = read_csv2d(src_dir + '/' + csv_files[0])
         t = d[:, :1]
@@ -84,7 +89,7 @@ def merge(grid_file, src_dir, dst_dir):
         for csv_file in csv_files[1:]:
             d = d + read_csv2d(src_dir + '/' + csv_file)[:, 1:]
         d = np.hstack((t, d))
-        np.savetxt('{0}/../{1}.csv'.format(dst_dir, nm), d, delimiter=";",
+        np.savetxt(total_csv, d, delimiter=";",
                    header='time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es',
                    comments='')
 
-- 
2.43.0


From 09e5f8d994b539e2327cee9a931edadc900ce20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 06/22] fix: remeshing: store intermediate meshes inside of
 output directory

For a mesh given by a bare name the separator between output directory and
file name was missing.
---
 crysgsu/remeshing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..288aa02 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -366,8 +366,8 @@ class TongRemesher:
 
             # Debug export intermediate mesh.
             if self.verbose:
-                self.grid.store(self.outdir + self.mesh_filename.replace('.dat',
-                                                                       '_{0:05d}.dat'.format(i)))
+                self.grid.store(self.outdir + '/'
+                                + self.mesh_filename.replace('.dat', '_{0:05d}.dat'.format(i)))
 
         if self.verbose:
             print('Tong remesh total time : {0:.4} seconds'.format(total_time))
-- 
2.43.0


From 1b25c08fa3e3796b66c36d99a16f3e953de731ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 07/22] fix: grid: clear must reset the name and the count of
 border nodes

A file without title loaded into a used grid kept the name of the previous
one, and border nodes of the previous grid stayed counted.
---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8b564ec..fb1b802 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -44,11 +44,13 @@ class Grid:
         Clear grid.
         """
 
+        self.Name = ''
         self.Nodes.clear()
         self.Edges.clear()
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 24fedc48a8a60e9721b3ab0daca51dc84e36f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 08/22] fix: grid: decomposition must work after a failed one

A failed request left faces without a zone, or linked to a dropped fixed
zone. The next request failed with AttributeError or lost these faces.
---
 crysgsu/gsu/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index fb1b802..3dc0b96 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -776,8 +776,13 @@ class Grid:
         Unlink faces from zones.
         """
 
+        # Only faces of the zones which are kept stay linked
+        # (face may be unlinked already or refer to a dropped zone
+        # if the previous decomposition has failed).
+        kept_zones_ids = set(id(zone) for zone in self.Zones)
+
         for face in self.Faces:
-            if not face.Zone.IsFixed:
+            if id(face.Zone) not in kept_zones_ids:
                 face.Zone = None
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From f757bd4051aafc03d1bbdd6a5eb145beb527ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 09/22] fix: grid: names of grid and zones may contain '='

On load the name was cut at the sign.
---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 3dc0b96..33829c9 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -495,7 +495,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -505,7 +505,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From 558386d2b01df3f8dbddd8006c914d870eb5db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 10/22] fix: grid: incomplete file of face values must not be
 accepted

An empty file or a row cut short (torn write of the solver) was loaded
silently, missing values became zeros.
---
 crysgsu/gsu/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 33829c9..e8d5ca0 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1159,6 +1159,8 @@ class Grid:
         # Read variables from the first line.
         f = open(filename, 'r')
         line = f.readline()
+        if ('VARIABLES=' not in line) or (line[-1] != '\n'):
+            raise Exception('Wrong variables line ({0}).'.format(line))
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
@@ -1167,6 +1169,8 @@ class Grid:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
+            if len(values) != len(variables):
+                raise Exception('Wrong count of values ({0}).'.format(line))
             face = self.Faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
-- 
2.43.0


From 93432adc120048e3e60376a9d99ec76725998520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 11/22] fix: merge: csv files of different sizes must not be
 summed

A file with one row was added to every row of the others.
---
 crysgsu/merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/merge.py b/crysgsu/merge.py
index 045140d..67e6172 100644
--- a/crysgsu/merge.py
+++ b/crysgsu/merge.py
@@ -87,7 +87,10 @@ def merge(grid_file, src_dir, dst_dir):
         t = d[:, :1]
         d = d[:, 1:]
         for csv_file in csv_files[1:]:
-            d = d + read_csv2d(src_dir + '/' + csv_file)[:, 1:]
+            di = read_csv2d(src_dir + '/' + csv_file)[:, 1:]
+            if di.shape != d.shape:
+                raise Exception('crys-gsu-merge : different sizes of csv files ({0})'.format(csv_file))
+            d = d + di
         d = np.hstack((t, d))
         np.savetxt(total_csv, d, delimiter=";",
                    header='time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es',
-- 
2.43.0


From aad0097b2eb150b5d3ae82eec0ace5d9792a9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 12/22] fix: ansys_to_crystal: input file cut inside of a zone
 must not be accepted

---
 crysgsu/convert/ansys_to_crystal.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 8a2f894..9cb20f9 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -257,20 +257,26 @@ def filter_zones(filename, ofilename):
                     elif is_str_variables(l):
                         of.write(l)
                     elif is_str_zone(l):
-                        (nodes_count, elements_count) = get_zone_nodes_and_elements_count(l)
-                        if is_str_zone_to_extract(l):
+                        (nodes_to_read, elements_to_read) = get_zone_nodes_and_elements_count(l)
+                        is_extract = is_str_zone_to_extract(l)
+                        if is_extract:
                             of.write(l)
-                            nodes_to_read, elements_to_read = nodes_count, elements_count
                 else:
                     if nodes_to_read > 0:
-                        of.write(l)
+                        if is_extract:
+                            of.write(l)
                         nodes_to_read -= 1
                     elif elements_to_read > 0:
-                        of.write(l)
+                        if is_extract:
+                            of.write(l)
                         elements_to_read -= 1
 
                 l = f.readline()
 
+            # Файл не должен обрываться внутри зоны.
+            if (nodes_to_read > 0) or (elements_to_read > 0):
+                raise Exception('внутренная ошибка при чтении сетки')
+
     f.close()
     of.close()
 
-- 
2.43.0


From d9b6e34f07a1c56e3ba5b8eb856de4cd73a7ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 13/22] fix: grid: local transformations must keep orientation
 of faces

---
 crysgsu/gsu/grid.py | 90 +++++++++++++++++++--------------------------
 crysgsu/gsu/node.py |  4 +-
 2 files changed, 40 insertions(+), 54 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index e8d5ca0..5684603 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -325,6 +325,25 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def link_part_of_face(face, parent, replacements):
+        """
+        Link nodes of the face which is a part of parent face (orientation of parent is kept).
+
+        :param face: new face
+        :param parent: parent face
+        :param replacements: list of pairs (node of parent, node of new face instead of it)
+        """
+
+        for node in parent.Nodes:
+            for (old_node, new_node) in replacements:
+                if node is old_node:
+                    node = new_node
+                    break
+            Grid.link_node_face(node, face)
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def link_edge_face(edge, face):
         """
@@ -1328,12 +1347,13 @@ class Grid:
         Grid.link_edge_face(e6, f2)
         Grid.link_edge_face(e6, f3)
 
+        # (order of nodes keeps orientation of the face)
         Grid.link_node_face(n1, f1)
-        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
         Grid.link_node_face(n3, f3)
+        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1406,12 +1426,8 @@ class Grid:
             Grid.link_node_edge(n4, e5)
 
             # links
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n2, f2)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f2)
+            Grid.link_part_of_face(f1, face, [(n2, n4)])
+            Grid.link_part_of_face(f2, other_face, [(n1, n3)])
 
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
@@ -1535,18 +1551,10 @@ class Grid:
             Grid.link_node_edge(n4, e45)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n5, f1_1)
-            Grid.link_node_face(n5, f1_2)
-            Grid.link_node_face(n5, f2_1)
-            Grid.link_node_face(n5, f2_2)
-            Grid.link_node_face(n1, f1_2)
-            Grid.link_node_face(n1, f2_1)
-            Grid.link_node_face(n2, f1_1)
-            Grid.link_node_face(n2, f2_2)
-            Grid.link_node_face(n3, f1_1)
-            Grid.link_node_face(n3, f1_2)
-            Grid.link_node_face(n4, f2_1)
-            Grid.link_node_face(n4, f2_2)
+            Grid.link_part_of_face(f1_1, f1, [(n1, n5)])
+            Grid.link_part_of_face(f1_2, f1, [(n2, n5)])
+            Grid.link_part_of_face(f2_1, f2, [(n2, n5)])
+            Grid.link_part_of_face(f2_2, f2, [(n1, n5)])
 
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
@@ -1719,12 +1727,8 @@ class Grid:
             Grid.link_node_edge(n2, e24)
             Grid.link_node_edge(n3, e34)
 
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f2)
+            Grid.link_part_of_face(f1, face, [(n2, n4)])
+            Grid.link_part_of_face(f2, face, [(n1, n4)])
 
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
@@ -1836,15 +1840,9 @@ class Grid:
             Grid.link_node_edge(n5, e35)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
+            Grid.link_part_of_face(f1, face, [(n2, n4)])
+            Grid.link_part_of_face(f2, face, [(n1, n4), (n2, n5)])
+            Grid.link_part_of_face(f3, face, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
@@ -1953,24 +1951,12 @@ class Grid:
             Grid.link_node_edge(n6, e46)
             Grid.link_node_edge(n6, e56)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n1, f4)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n2, f6)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n4, f4)
-            Grid.link_node_face(n4, f5)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
-            Grid.link_node_face(n5, f5)
-            Grid.link_node_face(n5, f6)
-            Grid.link_node_face(n6, f4)
-            Grid.link_node_face(n6, f5)
-            Grid.link_node_face(n6, f6)
+            Grid.link_part_of_face(f1, face1, [(n2, n4)])
+            Grid.link_part_of_face(f2, face1, [(n1, n4), (n2, n5)])
+            Grid.link_part_of_face(f3, face1, [(n1, n5)])
+            Grid.link_part_of_face(f4, face2, [(n2, n4)])
+            Grid.link_part_of_face(f5, face2, [(n1, n4), (n2, n5)])
+            Grid.link_part_of_face(f6, face2, [(n1, n5)])
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..5fe9257 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -84,8 +84,8 @@ class Node:
         for ed in self.Edges:
             ed.Nodes.remove(self)
             ed.Nodes += [n]
+        # Position of node in face must be kept (it defines orientation of the face).
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            face.Nodes = [n if node is self else node for node in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 037c6ea9528a6554c29f372d4c62b7013526a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 14/22] fix: grid: collapse_edge must work and keep numbering
 after other transformations

---
 crysgsu/gsu/grid.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 5684603..63a72d2 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1276,12 +1276,31 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
-        self.Nodes.remove(node)
+        for zone in self.Zones:
+            zone.Nodes = [n for n in zone.Nodes if n is not node]
+        self.Nodes = [n for n in self.Nodes if n is not node]
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def reuse_global_ids(items, free_ids):
+        """
+        Give identifiers of deleted items to the items with the biggest identifiers
+        (items of grid must be numbered without gaps).
+
+        :param items: rest items
+        :param free_ids: identifiers of deleted items
+        """
+
+        count = len(items)
+        ids = [i for i in free_ids if i < count]
+        for item in items:
+            if item.GloId >= count:
+                item.GloId = ids.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     def divide_face(self, face, p):
         """
 
@@ -1639,12 +1658,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            Grid.reuse_global_ids(self.Faces, [f1.GloId, f2.GloId])
+            Grid.reuse_global_ids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
+            Grid.reuse_global_ids(self.Nodes, [n2.GloId])
 
             return True
         else:
-- 
2.43.0


From 6fe1ebc58b929e4bf0cdcf9db7b1fcd4146bbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 15/22] fix: grid: local transformations on the border of zones
 must keep both zones

---
 crysgsu/gsu/grid.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 63a72d2..3182e5e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1420,6 +1420,7 @@ class Grid:
             self.del_face(face)
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
+            other_zone = other_face.Zone
             gloid2 = other_face.GloId
             self.del_face(other_face)
 
@@ -1456,12 +1457,16 @@ class Grid:
             Grid.link_edge_face(e5, f2)
 
             zone.add_face(f1)
-            zone.add_face(f2)
+            other_zone.add_face(f2)
             zone.add_edge(e5)
 
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
 
+            # Nodes and edges on the border of zones.
+            if zone is not other_zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
@@ -1515,6 +1520,7 @@ class Grid:
             zone = f1.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
+            other_zone = f2.Zone
 
             self.del_face(f1)
             self.del_face(f2)
@@ -1590,13 +1596,17 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            other_zone.add_face(f2_1)
+            other_zone.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
             zone.add_edge(e45)
 
+            # Nodes and edges on the border of zones.
+            if zone is not other_zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
@@ -1622,6 +1632,7 @@ class Grid:
             # det all data and del from grid
             f1 = edge.Faces[0]
             f2 = edge.Faces[1]
+            zones = [face.Zone for node in edge.Nodes for face in node.Faces]
 
             self.del_face(f1)
             self.del_face(f2)
@@ -1662,6 +1673,10 @@ class Grid:
             Grid.reuse_global_ids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
             Grid.reuse_global_ids(self.Nodes, [n2.GloId])
 
+            # Nodes and edges on the border of zones.
+            if any(zone is not zones[0] for zone in zones):
+                self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
@@ -1891,6 +1906,7 @@ class Grid:
             zone = face1.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
+            other_zone = face2.Zone
 
             self.del_face(face1)
             self.del_face(face2)
@@ -1996,9 +2012,9 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            other_zone.add_face(f4)
+            other_zone.add_face(f5)
+            other_zone.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
@@ -2007,6 +2023,10 @@ class Grid:
             zone.add_edge(e46)
             zone.add_edge(e56)
 
+            # Nodes and edges on the border of zones.
+            if zone is not other_zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
 
         else:
-- 
2.43.0


From cc45f567e62ad76ac500f0b05969108251212253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 16/22] fix: ansys_to_crystal rejects a file that ends inside a
 header line

---
 crysgsu/convert/ansys_to_crystal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 9cb20f9..746da02 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -270,6 +270,9 @@ def filter_zones(filename, ofilename):
                         if is_extract:
                             of.write(l)
                         elements_to_read -= 1
+                    elif l.strip() and not l.endswith('\n'):
+                        # Файл обрывается на недописанном заголовке.
+                        raise Exception('внутренная ошибка при чтении сетки')
 
                 l = f.readline()
 
-- 
2.43.0


From efb21d0026bf487d2c6232988bfee8df1ae2c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 17/22] fix: grid: kind of a line must not depend on words in
 names

---
 crysgsu/gsu/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 3182e5e..8b8f8a9 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -510,18 +510,21 @@ class Grid:
             line = f.readline()
             while line:
 
+                # Kind of line is defined by its key (names may contain any words).
+                key = line[:line.find('=') + 1]
+
                 if line[0] == '#':
                     # Comment.
                     pass
-                elif 'TITLE=' in line:
+                elif 'TITLE=' in key:
                     self.Name = line.split('=', 1)[1][1:-2]
-                elif 'VARIABLES=' in line:
+                elif 'VARIABLES=' in key:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
                     face_variables = variables[3:]
                     face_variables_count = len(face_variables)
 
-                elif 'ZONE T=' in line:
+                elif 'ZONE T=' in key:
 
                     # Create new zone.
                     zone_name = line.split('=', 1)[1][1:-2]
-- 
2.43.0


From 40d17100c62c0be8e33859e15c13a2407f31eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 18/22] fix: ansys converters: kind of a line must not depend
 on words in zone names

---
 crysgsu/convert/ansys_to_crystal.py |  7 ++++---
 crysgsu/convert/gsu_converter.py    | 11 +++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 746da02..76b1046 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -61,7 +61,8 @@ def is_str_title(s):
         False -- в противном случае.
     """
 
-    return 'TITLE' in s
+    # Имя зоны может содержать любые слова, поэтому смотрим только на начало строки (до '=').
+    return 'TITLE' in s.split('=', 1)[0]
 
 # --------------------------------------------------------------------------------------------------
 
@@ -78,7 +79,7 @@ def is_str_variables(s):
         False -- в противном случае.
     """
 
-    return 'VARIABLES' in s
+    return 'VARIABLES' in s.split('=', 1)[0]
 
 # --------------------------------------------------------------------------------------------------
 
@@ -95,7 +96,7 @@ def is_str_zone(s):
         False -- в противном случае.
     """
 
-    return 'ZONE' in s
+    return 'ZONE' in s.split('=', 1)[0]
 
 # --------------------------------------------------------------------------------------------------
 
diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..324085e 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -210,14 +210,17 @@ class Grid:
             l = f.readline()
             while l:
 
-                if 'TITLE' in l:
+                # Имя зоны может содержать любые слова, поэтому смотрим только на начало строки (до '=').
+                key = l.split('=', 1)[0]
+
+                if 'TITLE' in key:
                     pass
-                elif 'VARIABLES' in l:
+                elif 'VARIABLES' in key:
                     pass
-                elif 'ZONE' in l:
+                elif 'ZONE' in key:
                     nums = re.findall('(\d+)', l.split('N=')[1])
                     nodes_to_read, elements_to_read = int(nums[0]), int(nums[1])
-                    self.Zones.append(Zone(l.split('T=')[1].split('"')[1]))
+                    self.Zones.append(Zone(l.split('T=', 1)[1].split('"')[1]))
                 else:
                     if nodes_to_read > 0:
                         [x, y, z, htc, beta, taux, tauy, tauz, recovery_factor] = l.split()
-- 
2.43.0


From 3d0497de0cf104e7f9c0c1f40174b45d27f2fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 19/22] fix: grid: face values must be loaded by identifiers of
 faces

After local transformations of the grid a position of a face in the list
of faces is not its identifier.
---
 crysgsu/gsu/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8b8f8a9..c35f976 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1186,6 +1186,10 @@ class Grid:
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
+        # Faces by their identifiers
+        # (position of a face in the list is not its identifier if the grid was edited).
+        faces = {f.GloId: f for f in self.Faces}
+
         # Process all rest lines.
         while line:
             ss = line.split()
@@ -1193,7 +1197,7 @@ class Grid:
             values = [float(s) for s in ss[1:]]
             if len(values) != len(variables):
                 raise Exception('Wrong count of values ({0}).'.format(line))
-            face = self.Faces[glo_id]
+            face = faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
 
-- 
2.43.0


From 0e7513c939db01bff0881870601bd0a574fbe371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 20/22] fix: split: count fixed zones of the grid, not names in
 the list

A zone may have several heating elements and several zones may have the
same name, then count of subdomains was wrong.
---
 crysgsu/split.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crysgsu/split.py b/crysgsu/split.py
index b4d4ed5..b5d7e62 100644
--- a/crysgsu/split.py
+++ b/crysgsu/split.py
@@ -61,6 +61,10 @@ def split(grid_file,
         if not fz in grid_zones_names:
             raise Exception('crys-gsu-split : no zone with name "{0}" in the grid'.format(fz))
 
+    # Count of fixed zones is not length of the list
+    # (a zone may be listed several times, several zones may have the same name).
+    fixed_zones_count = len([name for name in grid_zones_names if name in fixed_zones])
+
     # Issue#12 recovery_factor support
     # Check recovery factor in grid faces data.
     # If there is no recovery factor in face, then add it.
@@ -86,11 +90,11 @@ def split(grid_file,
         g.decompose_mono()
     elif split_strategy[0] == 'h':
         # Hierarchical split.
-        target_zones_count = domains_count + len(fixed_zones)
+        target_zones_count = domains_count + fixed_zones_count
         print('crys-gsu-split : hierarchical, target-zones-count={0} '
               '(2^{1} + {2}) // {3}'.format(target_zones_count,
                                             hierarchical_splits_count,
-                                            len(fixed_zones),
+                                            fixed_zones_count,
                                             fixed_zones))
         g.decompose_hierarchical(levels=hierarchical_splits_count + 1,
                                  fixed_zones=fixed_zones)
@@ -98,7 +102,7 @@ def split(grid_file,
         print('crys-gsu-split : hierarchical, actual-zones-count={0}'.format(actual_zones_count))
     elif split_strategy[0] == 'n':
         # Split with exact n domains defined.
-        fz = len(fixed_zones)
+        fz = fixed_zones_count
         if domains_count == 0:
             raise Exception('crys-gsu-split : zero zones count to split')
         if fz >= domains_count:
-- 
2.43.0


From 00633d138b401fa1ace9b5609841d94210d34d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 21/22] fix: grid: print_info uses a name which is not defined

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index c35f976..832c581 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -152,7 +152,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From b3eec59c26e7313f600394e524320e740b329b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 22/22] fix: grid: a new point at a node of another zone must
 get into the zone

---
 crysgsu/gsu/grid.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 832c581..9a7f21c 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1346,6 +1346,8 @@ class Grid:
             zone.add_node(n4)
         else:
             n4 = node
+            if n4 not in zone.Nodes:
+                zone.add_node(n4)
 
         # get edges
         e1 = Grid.find_edge(n1, n2)
@@ -1556,6 +1558,8 @@ class Grid:
                 zone.add_node(n5)
             else:
                 n5 = node
+                if n5 not in zone.Nodes:
+                    zone.add_node(n5)
 
             # Edges
             f1.Edges.remove(edge)
@@ -1745,6 +1749,8 @@ class Grid:
                 zone.add_node(n4)
             else:
                 n4 = node
+                if n4 not in zone.Nodes:
+                    zone.add_node(n4)
 
             # Edges
             face.Edges.remove(edge)
@@ -1844,12 +1850,16 @@ class Grid:
                 zone.add_node(n4)
             else:
                 n4 = node
+                if n4 not in zone.Nodes:
+                    zone.add_node(n4)
             n5 = gsu.Node(p2)
             node = self.add_node(n5, True)
             if id(node) == id(n5):
                 zone.add_node(n5)
             else:
                 n5 = node
+                if n5 not in zone.Nodes:
+                    zone.add_node(n5)
 
             # Edges
             face.Edges.remove(edge)
@@ -1945,12 +1955,16 @@ class Grid:
                 zone.add_node(n4)
             else:
                 n4 = node
+                if n4 not in zone.Nodes:
+                    zone.add_node(n4)
             n5 = gsu.Node(p2)
             node = self.add_node(n5, True)
             if id(node) == id(n5):
                 zone.add_node(n5)
             else:
                 n5 = node
+                if n5 not in zone.Nodes:
+                    zone.add_node(n5)
 
             # Edges
             face1.Edges.remove(edge)
-- 
2.43.0

